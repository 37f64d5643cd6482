CONSTANTS ByRef = TRUE MaxLen = 2 MaxN = 2 MaxOps = 3
INIT Init
NEXT Next
CONSTRAINT Bounded
INVARIANTS RelationsHold Schwartzian Accounted
CHECK_DEADLOCK FALSE
