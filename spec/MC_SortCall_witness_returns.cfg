SPECIFICATION Spec
CONSTANTS MaxN = 2  MaxTemps = 2  MaxBlocks = 1  WithFaults = TRUE  UseCustody = TRUE  Stable = TRUE
INVARIANTS NeverReturns
CHECK_DEADLOCK FALSE
