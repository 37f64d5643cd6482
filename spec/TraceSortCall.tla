---------------------------- MODULE TraceSortCall ---------------------------
(***************************************************************************)
(* Validates executions recorded from the real sorters against SortCall:   *)
(* each event must be an action of the protocol, in order, and the         *)
(* properties hold in every state.  Only exceptions caught inside the      *)
(* library are not recorded: CatchBadAlloc may happen silently.            *)
(* Environment: VP_TRACE.                                                  *)
(***************************************************************************)
EXTENDS SortCall, Json, IOUtils, TLC
Trace == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))
VARIABLES i, mode
tvars == <<vars, i, mode>>
Init == /\ i = 0 /\ mode = 0 /\ n = 0 /\ rank = <<>> /\ holds = <<>> /\ blocks = {}
        /\ facts = {} /\ phase = "idle" /\ exc = 0
e == Trace[i + 1]
IsCall == /\ e[1] = "call" /\ phase \in {"idle", "returned", "escaped"}
          /\ n' = Len(e[2]) /\ rank' = e[2] /\ mode' = e[4]
          /\ holds' = [o \in (1..Len(e[2])) \cup {-k : k \in 1..e[3]} |-> o]
          /\ blocks' = {} /\ facts' = {} /\ phase' = "running" /\ exc' = 0
(* Comparing what a projection returned teaches the same facts.            *)
CompareValues(a, b, less) ==
  /\ Running /\ a \in 1..n /\ b \in 1..n /\ less = (rank[a] < rank[b])
  /\ facts' = facts \cup {IF less THEN <<a, b, 1>> ELSE <<b, a, 0>>}
  /\ UNCHANGED <<n, rank, holds, blocks, phase, exc>>
IsStep ==
  /\ UNCHANGED mode
  /\ CASE e[1] = "cmp" -> Compare(e[2], e[3], e[4] = 1)
       [] e[1] = "vcmp" -> CompareValues(e[2], e[3], e[4] = 1)
       [] e[1] = "proj" -> Project(e[2])
       [] e[1] = "ctor" -> MoveConstruct(e[2], e[3])
       [] e[1] = "defctor" -> DefaultConstruct(e[2])
       [] e[1] = "assign" -> MoveAssign(e[2], e[3])
       [] e[1] = "self" -> SelfAssign(e[2])
       [] e[1] = "destroy" -> Destroy(e[2])
       [] e[1] = "alloc" -> Allocate(e[2])
       [] e[1] = "free" -> Deallocate(e[2])
       [] e[1] = "allocfail" -> AllocFails
       [] e[1] = "throw" -> Throw(e[2])
       [] e[1] = "return" -> FinalOrder = e[2] /\ (IF mode = 2 THEN ReturnUntouched ELSE Return(mode = 1))
       [] e[1] = "escape" -> Escape
       [] OTHER -> FALSE
Next == \/ i < Len(Trace) /\ i' = i + 1 /\ e[1] = "call" /\ IsCall
        \/ i < Len(Trace) /\ i' = i + 1 /\ e[1] # "call" /\ IsStep
        \/ i' = i /\ i < Len(Trace) /\ mode' = mode /\ CatchBadAlloc
Spec == Init /\ [][Next]_tvars
Track == IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE
ASSUME TLCSet(1, 0)
Sorts == mode # 2
ReturnsSorted == Sorts => SortedOnReturn
StableWhenAsked == mode = 1 => StableOnReturn
UntouchedByProbe == ~Sorts /\ phase \in {"returned", "escaped"} => \A o \in RangeObjs : holds[o] = o
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE
            ELSE Assert(FALSE, "accepted up to " \o ToString(TLCGet(1)))
=============================================================================
