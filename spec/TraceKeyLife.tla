---------------------------- MODULE TraceKeyLife ----------------------------
(* Keys recorded from the real code: <<"call", ranks>>, <<"project", k, r>>, *)
(* <<"copy", d, s>>, <<"move", d, s>>, <<"die", k>>, <<"less", a, b, r>>,     *)
(* <<"return", ranks afterwards>>.                                            *)
EXTENDS KeyLife, Json, IOUtils, TLC
Trace == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))
VARIABLES i
Init == i = 0 /\ ranks = <<>> /\ keys = <<>> /\ phase = "idle"
e == Trace[i + 1]
InOrder(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Step ==
  CASE e[1] = "call" -> Begin(e[2])
    [] e[1] = "project" -> Project(e[2], e[3])
    [] e[1] = "copy" -> Copy(e[2], e[3])
    [] e[1] = "move" -> Move(e[2], e[3])
    [] e[1] = "die" -> Die(e[2])
    [] e[1] = "less" -> Compare(e[2], e[3], e[4] = 1)
    [] e[1] = "return" -> Return /\ InOrder(e[2])
    [] OTHER -> FALSE
Next == i < Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_<<kvars, i>>
Track == IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE
ASSUME TLCSet(1, 0)
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE Assert(FALSE, "accepted up to " \o ToString(TLCGet(1)))
=============================================================================
