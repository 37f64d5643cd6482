CONSTANTS Values = {1, 2, 3} MaxSteps = 2
INIT Init
NEXT Next
INVARIANTS Ordered Kept Emit
POSTCONDITION Write
CHECK_DEADLOCK FALSE
