SPECIFICATION Spec
CONSTANTS MaxN = 2  MaxTemps = 2  MaxBlocks = 1  WithFaults = TRUE  UseCustody = TRUE  Stable = TRUE
INVARIANTS NeverEscapes
CHECK_DEADLOCK FALSE
