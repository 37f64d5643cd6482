SPECIFICATION Spec
CONSTRAINT Track
INVARIANTS WithinBudget
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
