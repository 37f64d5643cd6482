CONSTANTS
  MaxN = 4
  MaxPerm = 6
INIT Init
NEXT Next
INVARIANTS Axiom1 Bounded Axiom3 Axiom4 Axiom5 Relations Declared MonoDeclared ReachedWhenSorted
CHECK_DEADLOCK FALSE
