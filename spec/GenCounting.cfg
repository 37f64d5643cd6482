CONSTANTS ByRef = TRUE MaxLen = 3 MaxN = 0 MaxOps = 0
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
