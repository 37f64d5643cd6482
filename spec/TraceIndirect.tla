--------------------------- MODULE TraceIndirect ----------------------------
(* Element moves recorded from indirect_adapter and apply_permutation:      *)
(* <<"call", ranks, mode>> with mode 0 any sorted order, 1 the stable one,  *)
(* 2 the order given by ranks itself (a permutation to apply);              *)
(* <<"move", src, dst>>, <<"swap", a, b>>, <<"die", s>>, <<"return", order>>. *)
EXTENDS Indirect, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))
VARIABLES i, mode, rank
Init == /\ i = 0 /\ mode = 0 /\ rank = <<>> /\ n = 0 /\ idx = <<>> /\ at = <<>> /\ moved = <<>> /\ swapped = <<>> /\ phase = "idle"
e == Trace[i + 1]
Step ==
  CASE e[1] = "call" ->
         /\ phase \in {"idle", "done"} /\ n' = Len(e[2]) /\ rank' = e[2] /\ mode' = e[3]
         /\ idx' = (IF e[3] = 2 THEN e[2] ELSE IF e[3] = 1 THEN StablePerm(e[2]) ELSE <<>>)
         /\ at' = [s \in 1..Len(e[2]) |-> s]
         /\ moved' = [s \in 1..Len(e[2]) |-> 0] /\ swapped' = moved' /\ phase' = "placing"
    [] e[1] = "move" -> Relocate(e[2], e[3]) /\ UNCHANGED <<mode, rank>>
    [] e[1] = "swap" -> Exchange(e[2], e[3]) /\ UNCHANGED <<mode, rank>>
    [] e[1] = "return" ->
         /\ phase = "placing" /\ phase' = "done" /\ e[2] = [s \in 1..n |-> at[s]]
         /\ IF mode = 0 THEN SortedOutcome(rank, e[2]) /\ idx' = e[2] ELSE e[2] = idx /\ idx' = idx
         /\ UNCHANGED <<n, at, moved, swapped, mode, rank>>
    [] OTHER -> FALSE
Next == i < Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_<<ivars, i, mode, rank>>
Track == IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE
ASSUME TLCSet(1, 0)
AtMost == phase = "done" => Frugal(idx, moved, swapped)
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE Assert(FALSE, "accepted up to " \o ToString(TLCGet(1)))
==============================================================================
