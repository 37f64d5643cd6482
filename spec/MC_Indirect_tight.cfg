SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS NeverTight
CHECK_DEADLOCK FALSE
