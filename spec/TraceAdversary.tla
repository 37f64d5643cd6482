--------------------------- MODULE TraceAdversary ---------------------------
(* Games recorded against the real sorters: <<"call", n, kind>>,              *)
(* <<"ask", a, b, answer>>, <<"return", order>>.  Each answer is the one the  *)
(* specified adversary gives; the sorter wins by returning a decided order    *)
(* within the budget (kind 0: n log n, 1: quadratic).                         *)
EXTENDS Adversary, Cost, Json, IOUtils, TLC
Trace == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))
VARIABLES i, kind, over
Init == i = 0 /\ kind = 0 /\ over = TRUE /\ AInit0(0)
e == Trace[i + 1]
Step ==
  CASE e[1] = "call" -> /\ over /\ over' = FALSE /\ kind' = e[3]
                        /\ size' = e[2] /\ rank' = [x \in 1..e[2] |-> 0] /\ frozen' = 0 /\ pivot' = 0 /\ asked' = 0
    [] e[1] = "ask" -> ~over /\ Ask(e[2], e[3]) /\ Answer(e[2], e[3]) = (e[4] = 1) /\ UNCHANGED <<kind, over>>
    [] e[1] = "return" -> ~over /\ over' = TRUE /\ SortedOrder(e[2]) /\ UNCHANGED <<kind, avars>>
    [] OTHER -> FALSE
Next == i < Len(Trace) /\ i' = i + 1 /\ Step
Spec == Init /\ [][Next]_<<avars, i, kind, over>>
Track == IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE
ASSUME TLCSet(1, 0)
WithinBudget == asked <= BudgetsFor(size)[kind + 1]
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE Assert(FALSE, "accepted up to " \o ToString(TLCGet(1)))
==============================================================================
