----------------------------- MODULE Comparators -----------------------------
(***************************************************************************)
(* The orders documented for the comparators: floating point values as     *)
(* <<sign, class, magnitude>>, strings as sequences of character codes,    *)
(* and the algebra of the comparator adapters over arbitrary predicates.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

(* ---- floating point: class 0 finite (magnitude 0 is zero), 1 infinite, 2 NaN *)
IsNaN(x) == x[2] = 2
SignOf(x) == IF x[1] = 0 THEN 1 ELSE -1
(* where a value stands on the extended real line, NaNs at its far ends     *)
Line(x) == SignOf(x) * (CASE x[2] = 2 -> 2000 [] x[2] = 1 -> 1000 [] OTHER -> x[3])
PartialLessFp(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Line(a) < Line(b)
WeakLessFp(a, b) == Line(a) < Line(b)
(* -0 comes right before +0 *)
TotalLessFp(a, b) == Line(a) < Line(b) \/ (a[2] = 0 /\ b[2] = 0 /\ a[3] = 0 /\ b[3] = 0 /\ a[1] = 1 /\ b[1] = 0)
FpValues(maxmag) == {<<s, 0, m>> : s \in 0..1, m \in 0..maxmag} \cup {<<s, c, 0>> : s \in 0..1, c \in 1..2}

(* ---- strings                                                             *)
IsDigit(c) == 48 <= c /\ c <= 57
RECURSIVE LexLessFrom(_, _, _)
LexLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLessFrom(a, b, i + 1)
LexLess(a, b) == LexLessFrom(a, b, 1)
(* the digits of the run starting at i, without the leading zeros           *)
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN RunEnd(s, i + 1) ELSE i - 1
RECURSIVE NoZeros(_)
NoZeros(d) == IF d # <<>> /\ Head(d) = 48 THEN NoZeros(Tail(d)) ELSE d
(* A string is a sequence of numbers and of other characters: the tokens    *)
(* <<1, digits>> and <<0 or 2, code>>, digits sorting together.             *)
RECURSIVE Tokens(_, _)
Tokens(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsDigit(s[i]) THEN LET e == RunEnd(s, i) IN <<<<1, NoZeros(SubSeq(s, i, e))>>>> \o Tokens(s, e + 1)
  ELSE <<<<IF s[i] < 48 THEN 0 ELSE 2, <<s[i]>>>>>> \o Tokens(s, i + 1)
NumLess(d, e) == Len(d) < Len(e) \/ (Len(d) = Len(e) /\ LexLess(d, e))
TokLess(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ (IF t[1] = 1 THEN NumLess(t[2], u[2]) ELSE LexLess(t[2], u[2])))
RECURSIVE TokensLess(_, _)
TokensLess(a, b) ==
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF TokLess(Head(a), Head(b)) THEN TRUE ELSE IF TokLess(Head(b), Head(a)) THEN FALSE ELSE TokensLess(Tail(a), Tail(b))
NaturalLess(a, b) == TokensLess(Tokens(a, 1), Tokens(b, 1))
(* The same order through one sequence of integers per string.              *)
NaturalKey(s) == LET t == Tokens(s, 1) IN
  FlattenSeq([i \in 1..Len(t) |-> IF t[i][1] = 1 THEN <<1, Len(t[i][2])>> \o t[i][2] ELSE <<t[i][1]>> \o t[i][2]])
Lower(c) == IF 65 <= c /\ c <= 90 THEN c + 32 ELSE c
CaseKey(s) == [i \in 1..Len(s) |-> Lower(s[i])]
CaseLess(a, b) == LexLess(CaseKey(a), CaseKey(b))
(* the rank of every string among the others                                *)
Ranks(keys) ==
  LET srt == SetToSortSeq({keys[i] : i \in DOMAIN keys}, LexLess)
      pos(x) == CHOOSE p \in 1..Len(srt) : srt[p] = x
  IN [i \in 1..Len(keys) |-> pos(keys[i])]

(* ---- comparator adapters: a binary predicate over 1..m is a set of pairs  *)
Flip(p) == {<<x[2], x[1]>> : x \in p}
NotFn(p, m) == ((1..m) \X (1..m)) \ p
Project(p, f) == {x \in (DOMAIN f) \X (DOMAIN f) : <<f[x[1]], f[x[2]]>> \in p}
(* a chain of adapters, the first one applied first: 1 flip, 2 not_fn, 3 projection *)
RECURSIVE Chain(_, _, _, _)
Chain(ops, p, m, f) ==
  IF ops = <<>> THEN p
  ELSE Chain(Tail(ops), CASE Head(ops) = 1 -> Flip(p) [] Head(ops) = 2 -> NotFn(p, m) [] OTHER -> Project(p, f), m, f)

(* ---- what a comparison must satisfy                                       *)
StrictOn(S, L(_, _)) == (\A x \in S : ~L(x, x)) /\ (\A x, y, z \in S : L(x, y) /\ L(y, z) => L(x, z))
EquivOn(S, L(_, _)) == \A x, y, z \in S : (~L(x, y) /\ ~L(y, x) /\ ~L(y, z) /\ ~L(z, y)) => (~L(x, z) /\ ~L(z, x))
WeakOn(S, L(_, _)) == StrictOn(S, L) /\ EquivOn(S, L)
TotalOn(S, L(_, _)) == WeakOn(S, L) /\ \A x, y \in S : x # y => L(x, y) \/ L(y, x)
==============================================================================
