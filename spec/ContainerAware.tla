--------------------------- MODULE ContainerAware ----------------------------
(* container_aware_adapter: a collection may come with dedicated sort         *)
(* functions (hooks) for a sorter.  A call uses a hook whenever one can do    *)
(* what the call means, otherwise the adapted sorter is called as it is.      *)
EXTENDS Facade
Hooks     == {"R0", "R1c", "R1p", "R2"}
CACalls   == {c \in Calls : c.form = "range"}
(* documented rewrites: bake a projection in a comparison, add std::less<>    *)
RECURSIVE CAClosure(_)
CAClosure(S) == LET N == S \cup UNION {AddLess(s) \cup Bake(s) : s \in S} IN IF N = S THEN S ELSE CAClosure(N)
Expected(H, c) == IF Accepts(H, c) THEN {c} ELSE {t \in CAClosure({c}) : Accepts(H, t)}
(* any other hook that means the same is acceptable too                       *)
Allowed(H, c)  == IF Accepts(H, c) THEN {c} ELSE {t \in Closure({c}, TRUE) : t.form = "range" /\ Accepts(H, t)}
UsesHook(H, c) == Expected(H, c) # {}
==============================================================================
