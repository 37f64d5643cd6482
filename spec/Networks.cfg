SPECIFICATION Spec
VIEW view
CONSTRAINT Counted
INVARIANTS Malformed DocumentedSize SortsEveryInput
POSTCONDITION AllFinished
CHECK_DEADLOCK FALSE
