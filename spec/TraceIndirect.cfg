SPECIFICATION Spec
CONSTRAINT Track
INVARIANTS AtMost Conserved
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
