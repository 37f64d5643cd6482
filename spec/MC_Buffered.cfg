CONSTANTS MaxN = 5
 MaxKey = 3
 MaxBuf = 6
 Fits <- FitsReally
INIT Init
NEXT Next
INVARIANTS Conserved NoneLeft StableReturn NeverStuck
CHECK_DEADLOCK FALSE
