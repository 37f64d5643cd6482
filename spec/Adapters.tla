------------------------------ MODULE Adapters ------------------------------
(***************************************************************************)
(* Sorter adapters as a transition system: a sort call enters the term of  *)
(* a sorter at its root, every adapter hands it on to what it adapts --    *)
(* perhaps changed: other iterators, another comparison or projection --   *)
(* until it reaches a sorter that sorts, a fixed-size sorter, or the sort  *)
(* method of the collection.                                               *)
(*                                                                         *)
(* Terms:  <<"leaf", name>>, <<"small", name>>, <<adapter, term>> and      *)
(*         <<"hybrid", term, ..., term>>                                   *)
(* Calls:  [cat, src, n, cmp, proj]                                        *)
(*   cat   what the iterators can do: 0 forward, 1 bidirectional, 2 random *)
(*   src   "iter" (a pair of iterators), "plain" (an iterable), "list",    *)
(*         "flist" (standard lists), "sort", "stable", "both" (iterables   *)
(*         with sort and/or stable_sort methods), "arr" (an array)         *)
(*   cmp   "none", "less" (std::less<>) or "cmp" (anything else)           *)
(*   proj  "none", "ident" (identity) or "key" (anything else)             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* cat: iterators required, stable: documented as always stable            *)
LeafTable == [f_u |-> [cat |-> 0, stable |-> FALSE, native |-> FALSE], f_s |-> [cat |-> 0, stable |-> TRUE,  native |-> FALSE],
              b_u |-> [cat |-> 1, stable |-> FALSE, native |-> FALSE], b_s |-> [cat |-> 1, stable |-> TRUE,  native |-> FALSE],
              r_u |-> [cat |-> 2, stable |-> FALSE, native |-> FALSE], r_s |-> [cat |-> 2, stable |-> TRUE,  native |-> FALSE],
              (* sorts with operator< only, like counting_sorter            *)
              r_n |-> [cat |-> 2, stable |-> FALSE, native |-> TRUE]]
SmallTable == [sm_u |-> [stable |-> FALSE, sizes |-> {0, 1, 2, 3}], sm_s |-> [stable |-> TRUE, sizes |-> {0, 1, 2, 3}]]
Unary == {"counting", "drop_merge", "indirect", "out_of_place", "schwartz", "self_sort", "split", "stable", "verge", "make_stable", "stable_t"}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Rest(t) == [i \in 1..(Len(t) - 1) |-> t[i + 1]]

-----------------------------------------------------------------------------
(* nested hybrid_adapters are flattened                                     *)
RECURSIVE Flat(_)
Flat(ts) == IF ts = <<>> THEN <<>>
            ELSE (IF ts[1][1] = "hybrid" THEN Flat(Rest(ts[1])) ELSE <<ts[1]>>) \o Flat(Rest(ts))

(* the documented traits of the resulting sorter                            *)
RECURSIVE Cat(_)
Cat(t) ==
  CASE t[1] = "leaf" -> LeafTable[t[2]].cat
    [] t[1] = "small" -> 2
    [] t[1] = "drop_merge" -> 1
    [] t[1] \in {"indirect", "out_of_place"} -> 0
    [] t[1] \in {"verge", "split", "stable_verge"} -> Max2(1, Cat(t[2]))
    [] t[1] = "hybrid" -> LET S == {Cat(t[i]) : i \in 2..Len(t)} IN CHOOSE m \in S : \A o \in S : m <= o
    [] OTHER -> Cat(t[2])
RECURSIVE AlwaysStable(_)
AlwaysStable(t) ==
  CASE t[1] = "leaf" -> LeafTable[t[2]].stable
    [] t[1] = "small" -> SmallTable[t[2]].stable
    [] t[1] \in {"stable", "make_stable", "stable_t", "stable_verge"} -> TRUE
    [] t[1] \in {"drop_merge", "self_sort", "split", "verge"} -> FALSE
    [] t[1] = "hybrid" -> \A i \in 2..Len(t) : AlwaysStable(t[i])
    [] OTHER -> AlwaysStable(t[2])

-----------------------------------------------------------------------------
Iter(cat, c) == [c EXCEPT !.cat = cat, !.src = "iter"]
Explicit(c) == [c EXCEPT !.cmp = IF @ = "none" THEN "less" ELSE @]
(* calls a collection can answer with its own methods                       *)
MethodForm(c) == c.proj # "key" /\ (c.proj = "none" \/ c.cmp # "none")
HasSort(c)   == MethodForm(c) /\ c.src \in {"sort", "both", "list", "flist"}
HasStable(c) == MethodForm(c) /\ c.src \in {"stable", "both"}
IsStdList(c) == c.src \in {"list", "flist"}

(* One step: the configurations <<term, call, effect>> a call is handed to.  *)
(* effect.stab: "keep" whatever the rest of the way gives, "yes" stable      *)
(* whatever happens below, "no" nothing is promised.                         *)
(* effect.once: the whole collection is sorted by exactly one call           *)
(* effect.ret: "pass" the result of what is called, "count", "void"          *)
E(stab, once, ret) == [stab |-> stab, once |-> once, ret |-> ret]
Keep == E("keep", TRUE, "pass")
Method(name) == <<"method", name>>

RECURSIVE Outcomes(_, _)
Guaranteed(t, c) == Outcomes(t, c) # {} /\ \A o \in Outcomes(t, c) : o.stab = "yes"
Callable(t, c) == Outcomes(t, c) # {}

(* hybrid_adapter: among the sorters that accept the iterators, those that   *)
(* require the most, and the first of them that can be called                *)
Pick(ts, c) ==
  LET can(i) == Cat(ts[i]) <= c.cat /\ Callable(ts[i], c)
      better(i, j) == Cat(ts[i]) > Cat(ts[j]) \/ (Cat(ts[i]) = Cat(ts[j]) /\ i < j) IN
  {i \in 1..Len(ts) : can(i) /\ \A j \in 1..Len(ts) : (j # i /\ can(j)) => better(i, j)}
HybridSteps(ts, c) == {<<ts[i], c, Keep>> : i \in Pick(ts, c)}

StableSteps(t, c) ==
  CASE t[1] = "stable" -> {<<t, c, Keep>>}
    (* whether hybrid_adapters nested in the one made stable are flattened is open *)
    [] t[1] = "hybrid" -> LET wrap(f) == [i \in 1..Len(f) |-> <<"stable_t", f[i]>>] IN
                          HybridSteps(wrap(Flat(Rest(t))), c) \cup HybridSteps(wrap(Rest(t)), c)
    [] t[1] = "self_sort" ->
         IF HasStable(c) THEN {<<Method("stable_sort"), c, Keep>>} \cup (IF c.proj = "none" THEN {} ELSE {<<<<"stable_t", t[2]>>, c, Keep>>})
         ELSE IF IsStdList(c) /\ HasSort(c) THEN {<<Method("list"), c, Keep>>} \cup (IF c.proj = "none" THEN {} ELSE {<<<<"stable_t", t[2]>>, c, Keep>>})
         ELSE {<<<<"stable_t", t[2]>>, c, Keep>>}
    [] t[1] = "verge" -> {<<<<"stable_verge", t[2]>>, c, Keep>>}
    [] OTHER -> (IF Guaranteed(t, c) THEN {<<t, c, Keep>>} ELSE {})
                \cup {<<t, [Iter(2, c) EXCEPT !.cmp = "cmp", !.proj = "none"], E("yes", TRUE, "pass")>>}

Steps(t, c) ==
  CASE t[1] = "counting"     -> {<<t[2], [c EXCEPT !.cmp = "cmp"], E("keep", TRUE, "count")>>}
    [] t[1] = "indirect"     -> {<<t[2], [Iter(2, Explicit(c)) EXCEPT !.proj = "key"], Keep>>}
    [] t[1] = "out_of_place" -> {<<t[2], Iter(2, c), Keep>>}
    [] t[1] = "schwartz"     -> {<<t[2], IF c.proj = "key" THEN Iter(2, Explicit(c)) ELSE c, Keep>>}
    [] t[1] = "drop_merge"   -> {<<t[2], Iter(2, Explicit(c)), E("no", FALSE, "void")>>}
    [] t[1] = "split"        -> {<<t[2], Iter(c.cat, Explicit(c)), E("no", FALSE, "void")>>}
    [] t[1] = "verge"        -> {<<t[2], Iter(c.cat, Explicit(c)), E("no", FALSE, "void")>>}
    [] t[1] = "stable_verge" -> {<<<<"stable_t", t[2]>>, Iter(c.cat, Explicit(c)), E("yes", FALSE, "void")>>}
    [] t[1] = "make_stable"  -> {<<t[2], [Iter(2, c) EXCEPT !.cmp = "cmp", !.proj = "none"], E("yes", TRUE, "pass")>>}
    [] t[1] = "stable_t"     -> {<<IF AlwaysStable(t[2]) THEN t[2] ELSE <<"stable", t[2]>>, c, Keep>>}
    [] t[1] = "stable"       -> StableSteps(t[2], c)
    [] t[1] = "self_sort"    -> LET m == IF HasSort(c) THEN {<<Method(IF IsStdList(c) THEN "list" ELSE "sort"), c, Keep>>}
                                         ELSE IF HasStable(c) THEN {<<Method("stable_sort"), c, Keep>>} ELSE {} IN
                                IF m = {} \/ c.proj = "ident" THEN m \cup {<<t[2], c, Keep>>} ELSE m
    [] t[1] = "hybrid"       -> HybridSteps(Flat(Rest(t)), c)
    [] OTHER                 -> {}

Final(t) == t[1] \in {"leaf", "small", "method"}
LeafAccepts(l, c) == c.cat >= LeafTable[l].cat /\ (LeafTable[l].native => c.cmp # "cmp" /\ c.proj # "key")
SmallAccepts(s, c) == c.src = "arr" /\ c.n \in SmallTable[s].sizes
Accepts(t, c) == CASE t[1] = "leaf" -> LeafAccepts(t[2], c) [] t[1] = "small" -> SmallAccepts(t[2], c) [] OTHER -> TRUE
FinalStable(t) == CASE t[1] = "leaf" -> LeafTable[t[2]].stable [] t[1] = "small" -> SmallTable[t[2]].stable [] OTHER -> t[2] \in {"stable_sort", "list"}
(* a standard list's sort returns nothing                                    *)
FinalRet(t) == IF t = Method("list") THEN "void" ELSE "pass"
Join(e, o) == [hit |-> o.hit, stab |-> IF e.stab = "keep" THEN o.stab ELSE e.stab, once |-> e.once /\ o.once, ret |-> IF e.ret = "pass" THEN o.ret ELSE e.ret]
Outcomes(t, c) ==
  IF Final(t) THEN (IF Accepts(t, c) THEN {[hit |-> t[2], stab |-> IF FinalStable(t) THEN "yes" ELSE "no", once |-> TRUE, ret |-> FinalRet(t)]} ELSE {})
  ELSE UNION {{Join(s[3], o) : o \in Outcomes(s[1], s[2])} : s \in Steps(t, c)}
=============================================================================
