------------------------------ MODULE Indirect ------------------------------
(***************************************************************************)
(* Putting elements where a sorted sequence of their positions says:       *)
(* indirect_adapter, apply_permutation and the way sorted_indices and      *)
(* sorted_iterators are meant to be used.                                  *)
(*                                                                         *)
(* A collection of n elements named by their original position; `idx' is   *)
(* the sorted sequence of positions, so that the element that belongs at i *)
(* is idx[i].  `at' tells which element a slot holds: slots 1..n are the   *)
(* collection, negative ones are temporaries, Hole means that the slot     *)
(* holds no value.  Each cycle of idx is resolved by opening a hole, and   *)
(* filling holes, until the cycle closes; or by exchanging elements.       *)
(***************************************************************************)
EXTENDS Orders
Hole == 0
VARIABLES n, idx, at, moved, swapped, phase
ivars == <<n, idx, at, moved, swapped, phase>>

Slots == DOMAIN at
Live(s) == s \in Slots /\ at[s] # Hole
(* The primitive every implementation is made of: a value leaves src for a *)
(* slot that does not hold one; it is never copied nor overwritten.        *)
Relocate(src, dst) ==
  /\ phase = "placing" /\ Live(src) /\ ~Live(dst) /\ src # dst
  /\ at' = [s \in Slots \cup {dst} |-> IF s = dst THEN at[src] ELSE IF s = src THEN Hole ELSE at[s]]
  /\ moved' = [moved EXCEPT ![at[src]] = @ + 1]
  /\ UNCHANGED <<n, idx, swapped, phase>>
Exchange(a, b) ==
  /\ phase = "placing" /\ Live(a) /\ Live(b) /\ a # b
  /\ at' = [at EXCEPT ![a] = at[b], ![b] = at[a]]
  /\ swapped' = [swapped EXCEPT ![at[a]] = @ + 1]
  /\ UNCHANGED <<n, idx, moved, phase>>

(* The cycles of a permutation, each named by its least member.            *)
RECURSIVE Label0(_, _, _, _)
Label0(lab, jump, k, len) ==
  IF k >= len THEN lab
  ELSE LET l2 == TLCEval([i \in DOMAIN lab |-> IF lab[jump[i]] < lab[i] THEN lab[jump[i]] ELSE lab[i]])
           j2 == TLCEval([i \in DOMAIN lab |-> jump[jump[i]]])
       IN Label0(l2, j2, k * 2, len)
CycleLabel(p) == IF p = <<>> THEN <<>> ELSE Label0([i \in 1..Len(p) |-> i], p, 1, 2 * Len(p))
Cycle(p, i) == LET l == CycleLabel(p) IN {j \in DOMAIN p : l[j] = l[i]}

Sum(f, S) == LET RECURSIVE Add(_, _)
                 Add(T, acc) == IF T = {} THEN acc ELSE LET x == CHOOSE x \in T : TRUE IN Add(T \ {x}, acc + f[x])
             IN Add(S, 0)
(* The bound the library documents, cycle by cycle and overall.            *)
Frugal(p, mv, sw) ==
  LET lab == TLCEval(CycleLabel(p)) IN
  /\ \A c \in {lab[i] : i \in DOMAIN p} :
       LET C == {j \in DOMAIN p : lab[j] = c}
           m == Sum(mv, C)  s == Sum(sw, C)  k == Cardinality(C)
       IN IF k = 1 THEN m = 0 /\ s = 0
          ELSE (s = 0 /\ m <= k + 1) \/ (m = 0 /\ s <= k - 1)
  /\ 2 * Sum(mv, DOMAIN p) <= 3 * Len(p)

(* The algorithm: one temporary (slot -1), cycles in any order.            *)
Dest(e) == CHOOSE i \in 1..n : idx[i] = e
Holes == {s \in 1..n : at[s] = Hole}
Open(i) == Holes = {} /\ at[i] = i /\ idx[i] # i /\ Relocate(i, -1)
Fill(i) == i \in Holes /\ at[idx[i]] = idx[i] /\ Relocate(idx[i], i)
Close(i) == i \in Holes /\ at[-1] = idx[i] /\ Relocate(-1, i)
SwapIn(i) == Holes = {} /\ at[i] # idx[i] /\ \E j \in 1..n : at[j] = idx[i] /\ Exchange(i, j)
Finish == /\ phase = "placing" /\ \A i \in 1..n : at[i] = idx[i]
          /\ phase' = "done" /\ UNCHANGED <<n, idx, at, moved, swapped>>

Conserved == phase # "idle" =>
  /\ {at[s] : s \in Slots} \ {Hole} = 1..n
  /\ \A s, t \in Slots : s # t /\ at[s] # Hole => at[s] # at[t]
InPlaceNeverMove == phase # "idle" => \A i \in 1..n : idx[i] = i => moved[i] = 0 /\ swapped[i] = 0
FrugalAtEnd == phase = "done" => Frugal(idx, moved, swapped)
PlacedAtEnd == phase = "done" => \A i \in 1..n : at[i] = idx[i]
==============================================================================
