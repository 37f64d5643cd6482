---------------------------- MODULE TraceBuffered ----------------------------
(* Executions recorded from the buffered sorters with a buffer provider     *)
(* that tells what becomes of its cells: behaviours of module Buffered.     *)
EXTENDS Buffered, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))
VARIABLE i
Init == i = 0 /\ Idle
e == Trace[i + 1]
Step ==
  CASE e[1] = "call" -> Call(e[2], e[3])
    [] e[1] = "buffer" -> Buffer(e[2], e[3], e[4])
    [] e[1] = "gone" -> Discard(e[2], e[3])
    [] e[1] = "new" -> ToLocal(e[2], e[3])
    [] e[1] = "assign" -> Move(e[2], e[3])
    [] e[1] = "cmp" -> Compare(e[2], e[3], e[4] = 1)
    [] e[1] = "return" -> Return(e[2])
    [] OTHER -> FALSE
Next == i < Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_<<bvars, i>>
Track == IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE
ASSUME TLCSet(1, 0)
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE Assert(FALSE, "accepted up to " \o ToString(TLCGet(1)))
==============================================================================
