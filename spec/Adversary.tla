----------------------------- MODULE Adversary ------------------------------
(***************************************************************************)
(* McIlroy's adversary: it answers comparisons so as to learn as little as *)
(* possible from each, while staying consistent with some total order.     *)
(* Every element starts as gas (larger than anything solid).  Comparing    *)
(* two gases freezes one, preferring the element that is likely a pivot.   *)
(* ban[e] = 0 while e is gas, else its rank.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES size, rank, frozen, pivot, asked
avars == <<size, rank, frozen, pivot, asked>>
AInit0(m) == size = m /\ rank = [e \in 1..m |-> 0] /\ frozen = 0 /\ pivot = 0 /\ asked = 0
Gas(e) == rank[e] = 0
Max(a, b) == IF a > b THEN a ELSE b
(* which element freezes when two different gases are compared             *)
Victim(a, b) == IF a = pivot THEN a ELSE b
Frozen(a, b) == IF a # b /\ Gas(a) /\ Gas(b) THEN [rank EXCEPT ![Victim(a, b)] = frozen + 1] ELSE rank
LessIn(rk, a, b) == a # b /\ rk[a] # 0 /\ (rk[b] = 0 \/ rk[a] < rk[b])
Ask(a, b) ==
  /\ asked' = asked + 1
  /\ rank' = Frozen(a, b)
  /\ frozen' = (IF rank' = rank THEN frozen ELSE frozen + 1)
  /\ pivot' = (IF rank'[a] = 0 THEN a ELSE IF rank'[b] = 0 THEN b ELSE pivot)
  /\ UNCHANGED size
Answer(a, b) == LessIn(rank', a, b)
(* An order of the elements is sorted when every neighbour pair is decided *)
(* by the ranks: at most one element may still be gas.                     *)
SortedOrder(q) == /\ Len(q) = size /\ {q[i] : i \in 1..size} = 1..size
                  /\ \A i \in 1..(size - 1) : LessIn(rank, q[i], q[i + 1])
==============================================================================
