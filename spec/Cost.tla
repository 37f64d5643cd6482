-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* The comparison budgets: what the documented complexities allow on a     *)
(* collection of m elements.  The multiples are generous so that only the  *)
(* order of growth matters: quadratic behaviour exceeds the n log n budget *)
(* from a few hundred elements on.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Log2Up(_, _, _)
Log2Up(m, p, l) == IF p >= m THEN l ELSE Log2Up(m, p * 2, l + 1)
NLogN(m) == (6 * m * Log2Up(m, 1, 0)) + 60
(* sorters that select pivots with medians of medians pay more per element *)
NLogNSelect(m) == (10 * m * Log2Up(m, 1, 0)) + 60
Quadratic(m) == (m * m) + m
Linear(m) == (6 * m) + 60
NonDecreasing(k) == \A i \in 1..(Len(k) - 1) : k[i] <= k[i + 1]
Budgets(k) == <<NLogN(Len(k)), Quadratic(Len(k)), IF NonDecreasing(k) THEN Linear(Len(k)) ELSE -1, NLogNSelect(Len(k))>>
BudgetsFor(m) == <<NLogN(m), Quadratic(m), -1, NLogNSelect(m)>>
==============================================================================
