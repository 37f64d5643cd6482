INIT Init
NEXT Next
CONSTANT MaxN = 5
VIEW View
INVARIANTS Injective AnswersDecide Strict
PROPERTY DecidedStays
CHECK_DEADLOCK FALSE
