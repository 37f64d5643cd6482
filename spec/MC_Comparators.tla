---------------------------- MODULE MC_Comparators ----------------------------
(* The documented orders are orders of the announced strength, the efficient *)
(* form of the natural order is the declared one, and the adapters obey the  *)
(* laws that flip, not_fn and make_projection_compare rely on to unwrap.     *)
EXTENDS Comparators
CONSTANTS MaxMag, MaxLen
VARIABLE step
Init == step = 0
Next == step < 5 /\ step' = step + 1
Fp == FpValues(MaxMag)
Digits == {48, 49, 97, 47}
StringsUpTo(A, n) == UNION {[1..l -> A] : l \in 0..n}
Strs == StringsUpTo(Digits, MaxLen)
FpOrders == step = 1 => /\ TotalOn(Fp, TotalLessFp)
                        /\ WeakOn(Fp, WeakLessFp)
                        /\ StrictOn(Fp, PartialLessFp)
                        /\ \A a, b \in Fp : (PartialLessFp(a, b) => WeakLessFp(a, b)) /\ (WeakLessFp(a, b) => TotalLessFp(a, b))
NaturalOrder == step = 2 => /\ WeakOn(StringsUpTo(Digits, 2), NaturalLess)
                            /\ \A a, b \in Strs : NaturalLess(a, b) = LexLess(NaturalKey(a), NaturalKey(b))
CaseOrder == step = 3 => LET S == StringsUpTo({65, 97, 91}, 3) IN
                  /\ WeakOn(S, CaseLess)
                  /\ \A a \in S : ~CaseLess(a, CaseKey(a)) /\ ~CaseLess(CaseKey(a), a)
Preds == SUBSET ((1..2) \X (1..2))
Laws == step = 4 => \A p \in Preds :
   /\ Flip(Flip(p)) = p /\ NotFn(NotFn(p, 2), 2) = p /\ Flip(NotFn(p, 2)) = NotFn(Flip(p), 2)
   /\ \A f \in [1..2 -> 1..2] : Flip(Project(p, f)) = Project(Flip(p), f) /\ NotFn(Project(p, f), 2) = Project(NotFn(p, 2), f)
Spec == Init /\ [][Next]_step
===============================================================================
