SPECIFICATION Spec
CONSTANTS MaxN = 2  MaxTemps = 2  MaxBlocks = 1  WithFaults = TRUE  UseCustody = TRUE  Stable = TRUE
INVARIANTS NoDuplicate Conserved OutsideUntouched SortedOnReturn CleanOnEscape StableWhenAsked EvidenceIsNecessary
CHECK_DEADLOCK FALSE
