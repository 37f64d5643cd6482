------------------------------ MODULE Providers ------------------------------
(* The documented sizes of the buffers of the library's buffer providers:   *)
(* fixed_buffer<N> has N elements whatever is asked, dynamic_buffer<Policy> *)
(* has Policy(size of the collection) elements, converted to an integer.    *)
EXTENDS Integers, Sequences
(* least n whose natural logarithm is at least k, k = 0, 1, 2, ...          *)
LnFrom == <<1, 3, 8, 21, 55, 149, 404, 1097, 2981, 8104, 22027, 59875, 162755, 442414, 1202605>>
HalfOf(n) == n \div 2
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m)
SqrtOf(n) == IF n = 0 THEN 0 ELSE SqrtIn(n, 1, IF n > 4000000 THEN 40000 ELSE 2001)
LogOf(n) == CHOOSE k \in 0..14 : LnFrom[k + 1] <= n /\ (k = 14 \/ n < LnFrom[k + 2])      \* n > 0
PolicySize(p, n, fixed) == CASE p = "half" -> HalfOf(n) [] p = "sqrt" -> SqrtOf(n) [] p = "log" -> LogOf(n) [] p = "same" -> n [] p = "twice" -> 2 * n [] OTHER -> fixed
(* a definition of the square root, and what makes the table a logarithm    *)
SqrtRight(n) == LET r == SqrtOf(n) IN r * r <= n /\ (r + 1) * (r + 1) > n
==============================================================================
