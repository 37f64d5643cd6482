SPECIFICATION Spec
CONSTRAINT Track
INVARIANTS ReturnsSorted StableWhenAsked UntouchedByProbe CleanOnEscape
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
