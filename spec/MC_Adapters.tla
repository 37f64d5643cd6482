---------------------------- MODULE MC_Adapters -----------------------------
(* Every call through every term of bounded depth: a configuration walks    *)
(* from the root of the term to what sorts.                                  *)
EXTENDS Adapters, TLC
CONSTANT Depth
Base == {<<"leaf", l>> : l \in {"f_u", "f_s", "r_u", "r_n"}} \cup {<<"small", "sm_u">>}
Grow(S) == S \cup {<<u, t>> : u \in Unary, t \in S}
Pairs(S) == {<<"hybrid", a, b>> : a \in S, b \in S}
Terms == IF Depth = 1 THEN Grow(Grow(Base) \cup Pairs(Base)) ELSE Grow(Grow(Base \cup Pairs(Base))) \cup Pairs(Grow(Base))
Calls == {[cat |-> k, src |-> s, n |-> m, cmp |-> x, proj |-> p] :
            k \in 0..2, s \in {"iter", "plain", "list", "flist", "sort", "stable", "both", "arr"}, m \in {2, 5}, x \in {"none", "cmp"}, p \in {"none", "key"}}
Real(c) == /\ (c.src = "flist" => c.cat = 0) /\ (c.src = "list" => c.cat = 1)
           /\ (c.src \in {"sort", "stable", "both", "arr"} => c.cat = 2) /\ (c.src # "arr" => c.n = 5)
VARIABLES top, call, t, c, stab, ret
vars == <<top, call, t, c, stab, ret>>
Init == /\ top \in Terms /\ call \in {x \in Calls : Real(x)} /\ call.cat >= Cat(top) /\ Callable(top, call)
        /\ t = top /\ c = call /\ stab = "keep" /\ ret = "pass"
Next == \E s \in Steps(t, c) : /\ Callable(s[1], s[2])
                               /\ t' = s[1] /\ c' = s[2]
                               /\ stab' = IF stab = "keep" THEN s[3].stab ELSE stab
                               /\ ret' = IF ret = "pass" THEN s[3].ret ELSE ret
                               /\ UNCHANGED <<top, call>>
Outcome == IF stab = "keep" THEN (IF FinalStable(t) THEN "yes" ELSE "no") ELSE stab
(* the call never gets stuck before something sorts                          *)
Progress == Final(t) \/ \E s \in Steps(t, c) : Callable(s[1], s[2])
(* what is called can handle the iterators it is given                       *)
CatSound == t[1] = "method" \/ c.cat >= Cat(t)
(* traits that promise stability are right                                   *)
TraitSound == Final(t) /\ AlwaysStable(top) => Outcome = "yes"
StableSound == Final(t) /\ top[1] \in {"stable", "stable_t", "make_stable"} => Outcome = "yes"
GuaranteeSound == Final(t) /\ Guaranteed(top, call) => Outcome = "yes"
(* wrapping in stable_adapter accepts what the adapted sorter accepts with   *)
(* at least random-access iterators and a comparison                         *)
StableCallable == Callable(top, [Iter(2, call) EXCEPT !.cmp = "cmp", !.proj = "none"]) => Callable(<<"stable", top>>, call)
(* nesting and order of hybrid_adapter                                       *)
Flattened == top[1] = "hybrid" => /\ Outcomes(<<"hybrid", top>>, call) = Outcomes(top, call)
                                  /\ (Cat(top[2]) # Cat(top[3]) => Outcomes(<<"hybrid", top[3], top[2]>>, call) = Outcomes(top, call))
=============================================================================
