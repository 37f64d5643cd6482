------------------------------- MODULE Orders -------------------------------
(***************************************************************************)
(* The mathematical vocabulary every other module of this specification    *)
(* relies on.  A collection is a finite sequence `keys' of integers: what  *)
(* a comparison may observe of an element is only its key (two elements    *)
(* with the same key are equivalent), while the element itself is          *)
(* identified by its original position 1..Len(keys).  An outcome of a sort *)
(* is therefore a sequence of original positions.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

SetToSeq0(S) == SetToSeq(S)
Positions(keys) == 1..Len(keys)
IdSeq(n) == [i \in 1..n |-> i]

(* perm is a rearrangement of the n original positions. *)
IsPermutation(perm, n) ==
  /\ Len(perm) = n
  /\ {perm[i] : i \in 1..n} = 1..n

(* No element compares less than one placed before it.  The definition is  *)
(* over all pairs; SortedAdjacent is the usual local one.  MC_Orders proves *)
(* them equal (weak orders are transitive).                                *)
SortedAllPairs(keys, perm) ==
  \A i, j \in 1..Len(perm) : i < j => ~(keys[perm[j]] < keys[perm[i]])
SortedAdjacent(keys, perm) ==
  \A i \in 1..(Len(perm) - 1) : ~(keys[perm[i + 1]] < keys[perm[i]])

SortedOutcome(keys, perm) == IsPermutation(perm, Len(keys)) /\ SortedAdjacent(keys, perm)

(* Equivalent elements stay in their original order. *)
StableAllPairs(keys, perm) ==
  \A i, j \in 1..Len(perm) : (i < j /\ keys[perm[i]] = keys[perm[j]]) => perm[i] < perm[j]
StableOutcome(keys, perm) == SortedOutcome(keys, perm) /\ StableAllPairs(keys, perm)

(* The one stable outcome, constructively. *)
Before(keys, a, b) == keys[a] < keys[b] \/ (keys[a] = keys[b] /\ a < b)
StablePerm(keys) == SortSeq(IdSeq(Len(keys)), LAMBDA a, b : Before(keys, a, b))

(* The same outcome, computed the way TLC evaluates fast: the encodings     *)
(* key * 2^13 + position, enumerated in increasing order.  The candidate   *)
(* is checked against the definition (adjacent form) before it is used.    *)
StableAdjacent(keys, perm) ==
  \A i \in 1..(Len(perm) - 1) : Before(keys, perm[i], perm[i + 1])
FastStablePerm(keys) ==
  IF Len(keys) >= 8192
  THEN LET q == SetToSeq({<<keys[i], i>> : i \in 1..Len(keys)})
           p == TLCEval([i \in 1..Len(keys) |-> q[i][2]])
       IN IF Len(q) = Len(keys) /\ StableAdjacent(keys, p) THEN p ELSE StablePerm(keys)
  ELSE LET S == {keys[i] * 8192 + i : i \in 1..Len(keys)}
           q == SetToSeq(S)
           p == TLCEval([i \in 1..Len(keys) |-> q[i] % 8192])
       IN IF Len(q) = Len(keys) /\ StableAdjacent(keys, p) THEN p ELSE StablePerm(keys)

SortedKeys(keys) == LET p == StablePerm(keys) IN [i \in 1..Len(keys) |-> keys[p[i]]]

(* Order-isomorphic normal form: keys replaced by their dense rank 1..k.   *)
Img(f) == {f[x] : x \in DOMAIN f}
DenseRank(keys) ==
  LET R == Img(keys) IN [i \in 1..Len(keys) |-> Cardinality({r \in R : r < keys[i]}) + 1]

(* Every weak order on n elements, as dense rank vectors: the inputs among *)
(* which a comparison-based algorithm can distinguish.                     *)
IsDense(w) == LET R == Img(w) IN R = 1..Cardinality(R)
WeakOrders(n) == {w \in [1..n -> 1..n] : IsDense(w)}
=============================================================================
