---------------------------- MODULE Presortedness ----------------------------
(***************************************************************************)
(* The measures of presortedness, each given by its documented definition. *)
(* A measure of a collection is the set of values a probe may return: one  *)
(* value, except for Block and Exc on collections with equivalent elements, *)
(* whose definitions refer to *the* sorted sequence: there, any sorted     *)
(* arrangement of the equivalent elements may be meant.                    *)
(***************************************************************************)
EXTENDS Orders
LOCAL INSTANCE SequencesExt

MaxOf(q, base) == FoldLeft(LAMBDA acc, x : IF x > acc THEN x ELSE acc, base, q)
MinOf(q, base) == FoldLeft(LAMBDA acc, x : IF x < acc THEN x ELSE acc, base, q)
SumOf(q) == FoldLeft(LAMBDA acc, x : acc + x, 0, q)
Abs(x) == IF x < 0 THEN -x ELSE x
CountTrue(q) == FoldLeft(LAMBDA acc, x : IF x THEN acc + 1 ELSE acc, 0, q)
InOrder(k) == \A i \in 1..(Len(k) - 1) : k[i] <= k[i + 1]
IsDistinct(k) == Cardinality(Img(k)) = Len(k)

(* Inv: pairs of elements not in order.                                    *)
Inv(k) == LET n == Len(k) IN
  SumOf(TLCEval([i \in 1..n |-> CountTrue([j \in 1..(n - i) |-> k[i + j] < k[i]])]))
(* Runs: non-decreasing runs minus one.                                    *)
Runs(k) == IF Len(k) < 2 THEN 0 ELSE CountTrue([i \in 1..(Len(k) - 1) |-> k[i + 1] < k[i]])
(* Dis: the largest distance determined by an inversion.                   *)
Dis(k) == LET n == Len(k) IN
  MaxOf(TLCEval([i \in 1..n |-> MaxOf([j \in 1..(n - i) |-> IF k[i + j] < k[i] THEN j ELSE 0], 0)]), 0)
(* The positions an element may have in the sorted sequence.               *)
LoPos(k, x) == 1 + CountTrue([j \in 1..Len(k) |-> k[j] < x])
HiPos(k, x) == CountTrue([j \in 1..Len(k) |-> k[j] <= x])
(* Max: how far an element has to travel to one of its sorted positions.   *)
Travel(k, i) == LET lo == LoPos(k, k[i]) hi == HiPos(k, k[i]) IN
  IF i < lo THEN lo - i ELSE IF i > hi THEN i - hi ELSE 0
MaxDist(k) == MaxOf(TLCEval([i \in 1..Len(k) |-> Travel(k, i)]), 0)
(* Ham: elements that are not in (one of) their sorted position(s).        *)
Ham(k) == CountTrue(TLCEval([i \in 1..Len(k) |-> Travel(k, i) > 0]))
(* Longest chains of a relation between successive elements.               *)
Longest(k, Rel(_, _)) ==
  LET L == FoldLeft(LAMBDA acc, i : Append(acc, TLCEval(1 + MaxOf([j \in 1..(i - 1) |-> IF Rel(k[j], k[i]) THEN acc[j] ELSE 0], 0))),
                    <<>>, [i \in 1..Len(k) |-> i])
  IN MaxOf(L, 0)
Rem(k) == Len(k) - Longest(k, LAMBDA a, b : a <= b)
Sus(k) == LET d == Longest(k, LAMBDA a, b : a > b) IN IF d = 0 THEN 0 ELSE d - 1
(* Osc: how many elements each pair of neighbours strictly surrounds.      *)
Osc(k) == LET n == Len(k) IN IF n < 2 THEN 0 ELSE
  SumOf(TLCEval([j \in 1..(n - 1) |->
     LET lo == IF k[j] < k[j + 1] THEN k[j] ELSE k[j + 1]
         hi == IF k[j] < k[j + 1] THEN k[j + 1] ELSE k[j]
     IN CountTrue([i \in 1..n |-> lo < k[i] /\ k[i] < hi])]))
(* Mono: the fewest consecutive monotonic runs that make up the collection, *)
(* minus one.  up/dn: where the longest monotonic run ending here starts.  *)
Mono(k) ==
  LET Step(acc, i) ==           \* acc = <<pieces for the first j elements (index j + 1), up, dn>>
        LET up == IF i > 1 /\ k[i - 1] <= k[i] THEN acc[2] ELSE i
            dn == IF i > 1 /\ k[i - 1] >= k[i] THEN acc[3] ELSE i
            a == acc[1][up] b == acc[1][dn]
        IN <<Append(acc[1], TLCEval(1 + (IF a < b THEN a ELSE b))), up, dn>>
      r == FoldLeft(Step, <<<<0>>, 1, 1>>, [i \in 1..Len(k) |-> i])
      p == r[1][Len(k) + 1]
  IN IF p = 0 THEN 0 ELSE p - 1
(* Enc: encroaching lists minus one.  An element goes to the first list at  *)
(* an end of which it fits; a list is represented by its two ends.         *)
Enc(k) ==
  LET Fit(l, x) == x <= l[1] \/ x >= l[2]
      Put(l, x) == IF x >= l[2] THEN <<l[1], x>> ELSE <<x, l[2]>>
      Step(lists, x) ==
        LET S == SelectInSeq(lists, LAMBDA l : Fit(l, x)) IN
        IF S = 0 THEN Append(lists, <<x, x>>) ELSE TLCEval([lists EXCEPT ![S] = Put(lists[S], x)])
      r == FoldLeft(Step, <<>>, k)
  IN IF Len(k) = 0 THEN 0 ELSE Len(r) - 1

(* Exc and Block refer to a sorted arrangement `perm' of the elements.     *)
RECURSIVE OrbitMin(_, _, _)
OrbitMin(perm, start, at) == IF at = start THEN TRUE ELSE IF at < start THEN FALSE ELSE OrbitMin(perm, start, perm[at])
Cycles(perm) == CountTrue(TLCEval([i \in 1..Len(perm) |-> OrbitMin(perm, i, perm[i])]))
ExcOf(perm) == Len(perm) - Cycles(perm)
BlockOf(k, perm) == LET n == Len(k) IN IF n < 2 THEN 0 ELSE
  CountTrue([p \in 1..(n - 1) |-> IF perm[p] = n THEN k[n] # k[perm[n]] ELSE k[perm[p] + 1] # k[perm[p + 1]]])
Arrangements(k) == {p \in Permutations(1..Len(k)) : SortedAdjacent(k, p)}
(* Exchanges never concern an element that is already suitably placed.     *)
ExcSet(k)   == {ExcOf(p) : p \in {q \in Arrangements(k) : \A i \in 1..Len(k) : Travel(k, i) = 0 => q[i] = i}}
BlockSet(k) == {BlockOf(k, p) : p \in Arrangements(k)}

(* The same sets without enumerating the arrangements: exact for distinct  *)
(* elements, an enclosing interval with equivalent ones.                   *)
ExcRange(k, perm) ==
  IF InOrder(k) THEN <<0, 0>>
  ELSE IF IsDistinct(k) THEN LET e == ExcOf(perm) IN <<e, e>>
  ELSE LET h == Ham(k) IN <<(h + 1) \div 2, h - 1>>
BlockRange(k, perm) ==
  LET n == Len(k)
  IN IF InOrder(k) THEN <<0, 0>>
     ELSE IF IsDistinct(k) THEN LET b == BlockOf(k, perm) IN <<b, b>>
     ELSE LET s == TLCEval([p \in 1..n |-> k[perm[p]]])
              vals == {s[p] : p \in 1..n}
              top == s[n]
              after(i) == IF i < n THEN k[i + 1] ELSE IF k[i] = top THEN top ELSE top + 1
              succ(x) == s[HiPos(s, x) + 1]
              m(x) == CountTrue([i \in 1..n |-> k[i] = x])
              same(x) == CountTrue([i \in 1..n |-> k[i] = x /\ after(i) = x])
              next(x) == x # top /\ \E i \in 1..n : k[i] = x /\ after(i) = succ(x)
              best(x) == LET a == same(x) b == m(x) - 1 IN (IF a < b THEN a ELSE b) + (IF next(x) THEN 1 ELSE 0)
              worst(x) == IF same(x) > 0 THEN same(x) - 1
                          ELSE IF x # top /\ \A i \in 1..n : k[i] = x => after(i) = succ(x) THEN 1 ELSE 0
              q == SetToSeq(vals)
          IN <<n - 1 - SumOf(TLCEval([i \in 1..Len(q) |-> best(q[i])])), n - 1 - SumOf(TLCEval([i \in 1..Len(q) |-> worst(q[i])]))>>

(* The documented largest value of each measure for n elements.            *)
MaxForSize(m, n) ==
  IF n < 2 THEN 0 ELSE
  CASE m \in {"block", "dis", "exc", "max", "rem", "runs", "sus"} -> n - 1
    [] m = "ham" -> n
    [] m = "inv" -> (n * (n - 1)) \div 2
    [] m \in {"enc", "mono"} -> ((n + 1) \div 2) - 1
    [] m = "osc" -> (n * (n - 2)) \div 2
Names == <<"block", "dis", "enc", "exc", "ham", "inv", "max", "mono", "osc", "rem", "runs", "sus">>
(* The value of a measure given by a function of the keys.                 *)
Value(m, k) ==
  CASE m = "dis" -> Dis(k) [] m = "enc" -> Enc(k) [] m = "ham" -> Ham(k) [] m = "inv" -> Inv(k) [] m = "max" -> MaxDist(k)
    [] m = "mono" -> Mono(k) [] m = "osc" -> Osc(k) [] m = "rem" -> Rem(k) [] m = "runs" -> Runs(k) [] m = "sus" -> Sus(k)
    [] m = "exc" -> ExcOf(FastStablePerm(k)) [] m = "block" -> BlockOf(k, FastStablePerm(k))
==============================================================================
