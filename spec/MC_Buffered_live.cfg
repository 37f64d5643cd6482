CONSTANTS MaxN = 4
 MaxKey = 2
 MaxBuf = 4
 Fits <- FitsReally
SPECIFICATION Spec
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
