SPECIFICATION Spec
VIEW View
CONSTRAINT Track
INVARIANT Permutes
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
