--------------------------- MODULE MC_Presortedness ---------------------------
(* The definitions meet Mannila's axioms, the documented maxima and the      *)
(* relations found in the literature; the efficient forms are the declared   *)
(* ones.  One state per collection.                                          *)
EXTENDS Presortedness
CONSTANTS MaxN, MaxPerm
VARIABLE k
Init == k \in (UNION {WeakOrders(n) : n \in 1..MaxN}) \cup Permutations(1..MaxPerm) \cup {<<>>}
Next == UNCHANGED k
All == {Names[i] : i \in 1..Len(Names)}
Sub(q, d) == [i \in 1..(Len(q) - 1) |-> IF i < d THEN q[i] ELSE q[i + 1]]
Axiom1 == InOrder(k) => \A m \in All : Value(m, k) = 0
Bounded == \A m \in All : Value(m, k) <= MaxForSize(m, Len(k))
Axiom3 == IsDistinct(k) => \A m \in All \ {"block", "exc", "ham", "mono", "osc"} : \A d \in 1..Len(k) : Value(m, Sub(k, d)) <= Value(m, k)
Shifted(q, c) == [i \in 1..Len(q) |-> q[i] + c]
Axiom4 == (IsDistinct(k) /\ Len(k) <= 4) =>
  \A m \in All \ {"mono", "osc", "block", "enc"} : \A y \in Permutations(1..3) : Value(m, k \o Shifted(y, 10)) <= Value(m, k) + Value(m, y)
Axiom5 == (IsDistinct(k) /\ Len(k) > 1) => \A m \in All \ {"osc", "ham"} : Value(m, k) <= (Len(k) - 1) + Value(m, Tail(k))   \* an element may straddle the elements twice: Osc
Relations == Len(k) > 0 =>
  LET v == [m \in All |-> Value(m, k)] IN
  /\ v["dis"] <= v["inv"] /\ v["rem"] <= v["inv"] /\ v["runs"] <= v["rem"] + 1 /\ v["max"] <= v["dis"]
  /\ IsDistinct(k) => (v["exc"] <= v["inv"] /\ v["ham"] <= 2 * v["exc"] /\ (v["ham"] > 0 => v["exc"] + 1 <= v["ham"]))
  /\ v["dis"] <= 2 * v["max"] /\ v["sus"] <= v["runs"] /\ v["mono"] <= v["runs"]
(* The efficient forms. *)
Declared == Len(k) <= MaxN =>
  /\ ExcSet(k) = {ExcOf(FastStablePerm(k))} \/ ~IsDistinct(k)
  /\ LET r == BlockRange(k, FastStablePerm(k)) IN IF InOrder(k) THEN 0 \in BlockSet(k) ELSE
        /\ \A b \in BlockSet(k) : r[1] <= b /\ b <= r[2]
        /\ r[1] \in BlockSet(k) /\ r[2] \in BlockSet(k)
  /\ LET r == ExcRange(k, FastStablePerm(k)) IN ~InOrder(k) => \A e \in ExcSet(k) : r[1] <= e /\ e <= r[2]
Monotone(i, j) == (\A a \in i..(j - 1) : k[a] <= k[a + 1]) \/ (\A a \in i..(j - 1) : k[a] >= k[a + 1])
Pieces(cut) == \* cut: the last index of every piece but the last
  LET ends == cut \cup {Len(k)} starts == {1} \cup {c + 1 : c \in cut} IN
  \A s \in starts : LET e == CHOOSE x \in ends : x >= s /\ \A y \in ends : y >= s => x <= y IN Monotone(s, e)
MonoDeclared == Len(k) > 0 =>
  /\ \E cut \in SUBSET (1..(Len(k) - 1)) : Cardinality(cut) = Mono(k) /\ Pieces(cut)
  /\ \A cut \in SUBSET (1..(Len(k) - 1)) : Cardinality(cut) < Mono(k) => ~Pieces(cut)
(* The documented maxima are reached. *)
Reached == \A m \in All : \E w \in Permutations(1..Len(k)) \cup WeakOrders(Len(k)) : Value(m, w) = MaxForSize(m, Len(k))
ReachedWhenSorted == (Len(k) > 0 /\ k = IdSeq(Len(k)) /\ Len(k) <= MaxN) => Reached
===============================================================================
