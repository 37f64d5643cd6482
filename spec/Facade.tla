------------------------------- MODULE Facade --------------------------------
(* The unified sorting interface.  A call has a form (a pair of iterators or  *)
(* an iterable), possibly a comparison and possibly a projection.  The facade *)
(* may rewrite a call into another one that means the same, until it is one   *)
(* the sorter implementation accepts.                                         *)
EXTENDS Integers, Sequences, FiniteSets
Forms == {"iter", "range"}
Projs == {"none", "ident", "fn"}
(* A comparison: <<>> absent, <<"less">> std::less<> or a stand-in of it,     *)
(* <<"fn">> any other, <<c, p>> comparison c in which projection p is baked.  *)
Cmps  == {<<>>, <<"less">>, <<"fn">>}
Calls == [form : Forms, cmp : Cmps, proj : Projs]
States == [form : Forms, cmp : Cmps \cup {<<c, p>> : c \in {"less", "fn"}, p \in {"ident", "fn"}}, proj : Projs]
(* What a call means: a total preorder on the elements.                       *)
Order(s) == IF s.cmp = <<>> THEN "less" ELSE s.cmp[1]
View(s)  == LET q == IF Len(s.cmp) = 2 THEN s.cmp[2] ELSE "ident"
                p == IF s.proj = "none" THEN "ident" ELSE s.proj
            IN IF p = "fn" THEN p ELSE q
Meaning(s) == <<Order(s), View(s)>>
(* The overloads an implementation may provide.                               *)
Overloads == {"I0", "I1c", "I1p", "I2", "R0", "R1c", "R1p", "R2"}
Overload(s) == LET c == s.cmp # <<>>  p == s.proj # "none" IN
  IF s.form = "iter" THEN (IF c THEN (IF p THEN "I2" ELSE "I1c") ELSE IF p THEN "I1p" ELSE "I0")
                     ELSE (IF c THEN (IF p THEN "R2" ELSE "R1c") ELSE IF p THEN "R1p" ELSE "R0")
Accepts(F, s) == Overload(s) \in F
(* Rewrites.                                                                  *)
RangeToIter(s) == IF s.form = "range" THEN {[s EXCEPT !.form = "iter"]} ELSE {}
DropLess(s)    == IF s.cmp = <<"less">> THEN {[s EXCEPT !.cmp = <<>>]} ELSE {}
DropIdent(s)   == IF s.proj = "ident" THEN {[s EXCEPT !.proj = "none"]} ELSE {}
AddLess(s)     == IF s.cmp = <<>> /\ s.proj # "none" THEN {[s EXCEPT !.cmp = <<"less">>]} ELSE {}
Bake(s)        == IF s.proj # "none" /\ Len(s.cmp) < 2 THEN {[s EXCEPT !.cmp = <<Order(s), s.proj>>, !.proj = "none"]} ELSE {}
(* completing calls that lack a projection                                    *)
Complete(s)    == IF s.proj = "none" /\ Len(s.cmp) < 2 THEN {[s EXCEPT !.cmp = <<Order(s)>>], [s EXCEPT !.cmp = <<Order(s)>>, !.proj = "ident"]} ELSE {}
Rewrites(s)  == RangeToIter(s) \cup DropLess(s) \cup DropIdent(s) \cup AddLess(s) \cup Bake(s)
AllRewrites(s) == Rewrites(s) \cup Complete(s)
RECURSIVE Closure(_, _)
Closure(S, all) == LET N == S \cup UNION {IF all THEN AllRewrites(s) ELSE Rewrites(s) : s \in S} IN IF N = S THEN S ELSE Closure(N, all)
(* What a call may end up as, given what the implementation accepts.  A call  *)
(* which is accepted as it is, is forwarded as it is.                         *)
Targets(F, s, all) == IF Accepts(F, s) THEN {s} ELSE {t \in Closure({s}, all) : Accepts(F, t)}
==============================================================================
