CONSTANTS MaxN = 4
 MaxKey = 2
 MaxBuf = 4
 Fits <- FitsOffByOne
INIT Init
NEXT Next
INVARIANTS NeverStuck
CHECK_DEADLOCK FALSE
