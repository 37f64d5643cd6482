SPECIFICATION Spec
CONSTRAINT Track
INVARIANTS NoneLeft StableReturn
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
