-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* The key types of the type-specific sorters, as terms, and the order     *)
(* their values must be sorted in.                                         *)
(*   <<"u", w>>  unsigned integer of w bytes   <<"s", w>> signed integer   *)
(*   <<"f", w>>  IEC 559 number of w bytes     <<"bool">>                  *)
(*   <<"vec", t>> sequence                     <<"str">>  bytes            *)
(*   <<"prod", t1, ..., tk>> pair, tuple                                   *)
(* A scalar value is the sequence of its bytes, most significant first; a  *)
(* sequence, pair or tuple the sequence of its components.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Least(D) == CHOOSE i \in D : \A j \in D : i <= j
Shorter(a, b) == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
CmpBytes(a, b) ==                            \* lexicographic, prefixes first
  LET D == {i \in 1..Shorter(a, b) : a[i] # b[i]} IN
  IF D = {} THEN Sign(Len(a) - Len(b)) ELSE LET i == Least(D) IN Sign(a[i] - b[i])
Neg(a) == a[1] >= 128
Magnitude(a) == IF Neg(a) THEN [a EXCEPT ![1] = @ - 128] ELSE a
IsZero(a) == \A i \in DOMAIN a : Magnitude(a)[i] = 0
CmpSigned(a, b) == IF Neg(a) # Neg(b) THEN (IF Neg(a) THEN -1 ELSE 1) ELSE CmpBytes(a, b)
CmpFloat(a, b) ==
  IF IsZero(a) /\ IsZero(b) THEN 0
  ELSE IF Neg(a) # Neg(b) THEN (IF Neg(a) THEN -1 ELSE 1)
  ELSE IF Neg(a) THEN CmpBytes(Magnitude(b), Magnitude(a)) ELSE CmpBytes(a, b)

RECURSIVE Cmp(_, _, _)
CmpSeq(t, a, b) ==
  LET D == {i \in 1..Shorter(a, b) : a[i] # b[i] /\ Cmp(t, a[i], b[i]) # 0} IN
  IF D = {} THEN Sign(Len(a) - Len(b)) ELSE LET i == Least(D) IN Cmp(t, a[i], b[i])
CmpProd(t, a, b) ==
  LET D == {i \in 1..Len(a) : a[i] # b[i] /\ Cmp(t[i + 1], a[i], b[i]) # 0} IN
  IF D = {} THEN 0 ELSE LET i == Least(D) IN Cmp(t[i + 1], a[i], b[i])
Cmp(t, a, b) ==
  CASE t[1] \in {"u", "bool"} -> CmpBytes(a, b)
    [] t[1] = "s"   -> CmpSigned(a, b)
    [] t[1] = "f"   -> CmpFloat(a, b)
    [] t[1] = "str" -> CmpBytes(a, b)
    [] t[1] = "vec" -> CmpSeq(t[2], a, b)
    [] OTHER        -> CmpProd(t, a, b)

(* Bytes under which plain lexicographic order is the order of the type:   *)
(* what a byte-wise radix sort has to look at.                             *)
RadixKey(t, a) ==
  CASE t[1] \in {"u", "bool"} -> a
    [] t[1] = "s" -> [a EXCEPT ![1] = (@ + 128) % 256]
    [] OTHER      -> IF IsZero(a) THEN [i \in DOMAIN a |-> IF i = 1 THEN 128 ELSE 0]
                     ELSE IF Neg(a) THEN [i \in DOMAIN a |-> 255 - a[i]] ELSE [a EXCEPT ![1] = @ + 128]
IsNaN(a) ==
  LET m == Magnitude(a) IN
  IF Len(a) = 4 THEN m[1] = 127 /\ m[2] >= 128 /\ ~(m[2] = 128 /\ m[3] = 0 /\ m[4] = 0)
  ELSE IF Len(a) = 8 THEN m[1] = 127 /\ m[2] >= 240 /\ ~(m[2] = 240 /\ \A i \in 3..8 : m[i] = 0)
  ELSE FALSE

SetAsSeq(S) == SetToSeq(S)
(* The values of S with their ranks, in ascending order.                   *)
Ranked(t, S) == {<<Cardinality({y \in S : y # x /\ Cmp(t, y, x) < 0}), x>> : x \in S}
StrictlyRanked(R) == {p[1] : p \in R} = 0..(Cardinality(R) - 1)
=============================================================================
