---------------------------- MODULE MC_Indirect -----------------------------
(* Every permutation of up to MaxN positions; each cycle is resolved either *)
(* through a temporary or through exchanges, cycles and steps in any order. *)
EXTENDS Indirect
CONSTANT MaxN
Init == /\ n \in 1..MaxN /\ idx \in {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
        /\ at = [s \in (1..n) \cup {-1} |-> IF s = -1 THEN Hole ELSE s]
        /\ moved = [i \in 1..n |-> 0] /\ swapped = [i \in 1..n |-> 0] /\ phase = "placing"
MovedIn(i) == \E j \in Cycle(idx, i) : moved[j] > 0
SwappedIn(i) == \E j \in Cycle(idx, i) : swapped[j] > 0
Next == \/ \E i \in 1..n : (Open(i) /\ ~SwappedIn(i)) \/ Fill(i) \/ Close(i) \/ (SwapIn(i) /\ ~MovedIn(i))
        \/ Finish
        \/ phase = "done" /\ UNCHANGED ivars
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Next)
Terminates == <>(phase = "done")
(* the labels are what they claim to be                                    *)
LabelsRight ==
  LET lab == CycleLabel(idx) IN
  \A i \in 1..n : lab[i] = lab[idx[i]] /\ lab[lab[i]] = lab[i] /\ lab[i] <= i
     /\ (LET RECURSIVE Reach(_, _)
             Reach(x, k) == IF k = 0 THEN FALSE ELSE x = lab[i] \/ Reach(idx[x], k - 1)
         IN Reach(i, n))
(* witness that the bound on moves is tight                                *)
NeverTight == ~(phase = "done" /\ n > 1 /\ 2 * Sum(moved, 1..n) = 3 * n)
==============================================================================
