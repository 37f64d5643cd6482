SPECIFICATION Spec
CONSTANTS MaxN = 2  MaxTemps = 2  MaxBlocks = 0  WithFaults = TRUE  UseCustody = TRUE  Stable = FALSE
INVARIANTS TableAgrees
CHECK_DEADLOCK FALSE
