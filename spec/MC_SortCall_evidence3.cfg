SPECIFICATION Spec
CONSTANTS MaxN = 3  MaxTemps = 0  MaxBlocks = 0  WithFaults = FALSE  UseCustody = FALSE  Stable = FALSE
INVARIANTS NoDuplicate Conserved OutsideUntouched SortedOnReturn StableWhenAsked EvidenceIsNecessary
CHECK_DEADLOCK FALSE
