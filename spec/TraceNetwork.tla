---------------------------- MODULE TraceNetwork ----------------------------
(***************************************************************************)
(* A network sorter is a sequence of compare-exchanges that does not       *)
(* depend on the data: executions recorded from the real sorters must be   *)
(* behaviours of the machine below, which runs the comparators returned by *)
(* index_pairs().  Comparators that share no wire commute.                 *)
(* Events: <<"call", net, keys>> with distinct keys, <<"ce", a, b, less>>: *)
(* the elements that came from positions a and b were compared,            *)
(* <<"return", outcome>>.                                                  *)
(* Environment: VP_TRACE, VP_NETS (the extracted networks).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACE))
Nets  == TLCEval(ndJsonDeserialize(IOEnv.VP_NETS))
Used  == TLCEval({Trace[j][2] : j \in {x \in DOMAIN Trace : Trace[x][1] = "call"}})
(* the comparators on each wire, in order *)
Lists == TLCEval([k \in Used |->
           [w \in 0..(Nets[k][2] - 1) |->
              SelectSeq([c \in DOMAIN Nets[k][3] |-> c], LAMBDA c : Nets[k][3][c][1] = w \/ Nets[k][3][c][2] = w)]])
VARIABLES i, net, keys, arr, nxt, left
vars == <<i, net, keys, arr, nxt, left>>
Init == i = 0 /\ net = 0 /\ keys = <<>> /\ arr = <<>> /\ nxt = <<>> /\ left = 0
e == Trace[i + 1]
N == Nets[net][2]
Call == /\ e[1] = "call" /\ net' = e[2] /\ keys' = e[3] /\ Len(e[3]) = Nets[e[2]][2]
        /\ arr' = [w \in 0..(Len(e[3]) - 1) |-> w]
        /\ nxt' = [w \in 0..(Len(e[3]) - 1) |-> 1]
        /\ left' = Len(Nets[e[2]][3])
Wire(a) == CHOOSE w \in DOMAIN arr : arr[w] = a
Compare(a, b, less) ==
  LET u == Wire(a) v == Wire(b)
      lo == IF u < v THEN u ELSE v
      hi == IF u < v THEN v ELSE u
      swap == keys[arr[lo] + 1] > keys[arr[hi] + 1]
  IN /\ u # v /\ nxt[lo] <= Len(Lists[net][lo]) /\ nxt[hi] <= Len(Lists[net][hi])
     /\ Lists[net][lo][nxt[lo]] = Lists[net][hi][nxt[hi]]       \* both wires are ready for the same comparator
     /\ less = (keys[a + 1] < keys[b + 1])
     /\ arr' = IF swap THEN [arr EXCEPT ![lo] = arr[hi], ![hi] = arr[lo]] ELSE arr
     /\ nxt' = [nxt EXCEPT ![lo] = @ + 1, ![hi] = @ + 1]
     /\ left' = left - 1 /\ UNCHANGED <<net, keys>>
Return(out) == /\ left = 0 /\ out = [j \in 1..Len(keys) |-> arr[j - 1]]
               /\ \A j \in 2..Len(keys) : keys[out[j - 1] + 1] < keys[out[j] + 1]
               /\ UNCHANGED <<net, keys, arr, nxt, left>>
Step == CASE e[1] = "ce" -> Compare(e[2], e[3], e[4] = 1)
          [] e[1] = "return" -> Return(e[2])
          [] OTHER -> FALSE
Next == i < Len(Trace) /\ i' = i + 1 /\ (IF e[1] = "call" THEN Call ELSE Step)
Spec == Init /\ [][Next]_vars
Track == IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE
ASSUME TLCSet(1, 0)
Accepted == IF TLCGet(1) = Len(Trace) THEN TRUE ELSE Assert(FALSE, "accepted up to " \o ToString(TLCGet(1)))
View == i
Permutes == {arr[w] : w \in DOMAIN arr} = DOMAIN arr
=============================================================================
