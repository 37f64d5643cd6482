----------------------------- MODULE MC_Buffered -----------------------------
(***************************************************************************)
(* A merge sort over places, bottom-up.  Each pair of adjacent runs is     *)
(* merged through the buffer when the shorter run fits into it, from       *)
(* whichever side fits, and otherwise in place by carrying elements over   *)
(* with one local variable.  Checked for every input up to MaxN elements   *)
(* and every buffer size, including none and more than needed.             *)
(***************************************************************************)
EXTENDS Buffered
CONSTANTS MaxN, MaxKey, MaxBuf, Fits(_, _)
VARIABLES w, lo, mid, hi, mode, i, j, o
(* w: length of the runs, lo..mid-1 and mid..hi-1 the runs being merged; i, j, o: cursors *)
avars == <<w, lo, mid, hi, mode, i, j, o>>
n == Len(keys)
B == n + 1                    \* first cell of the buffer
Local == n + 1 + MaxBuf + 1
Key(p) == keys[at[p]]
Min(a, b) == IF a < b THEN a ELSE b
FitsReally(len, size) == len <= size
FitsOffByOne(len, size) == len <= size + 1

Init == Idle /\ w = 0 /\ lo = 0 /\ mid = 0 /\ hi = 0 /\ mode = "call" /\ i = 0 /\ j = 0 /\ o = 0
Begin == /\ mode = "call" /\ phase = "idle"
         /\ \E m \in 0..MaxN : \E k \in [1..m -> 1..MaxKey], s \in 0..MaxBuf : Call(k, s)
         /\ mode' = "buffer" /\ UNCHANGED <<w, lo, mid, hi, i, j, o>>
Allocate == /\ mode = "buffer" /\ Buffer(n, B, want) /\ mode' = "pair" /\ w' = 1 /\ lo' = 1 /\ UNCHANGED <<mid, hi, i, j, o>>
(* choose the next pair of runs and the way to merge it *)
Pair ==
  /\ mode = "pair" /\ UNCHANGED bvars
  /\ IF w >= n THEN mode' = "release" /\ UNCHANGED <<w, lo, mid, hi, i, j, o>>
     ELSE IF lo + w > n THEN w' = 2 * w /\ lo' = 1 /\ UNCHANGED <<mid, hi, mode, i, j, o>>
     ELSE /\ mid' = lo + w /\ hi' = Min(lo + 2 * w, n + 1) /\ UNCHANGED <<w, lo>>
          /\ \/ Fits(w, want) /\ mode' = "load-left" /\ i' = 0 /\ j' = 0 /\ o' = 0
             \/ Fits(hi' - mid', want) /\ mode' = "load-right" /\ i' = 0 /\ j' = 0 /\ o' = 0
             \/ ~Fits(w, want) /\ ~Fits(hi' - mid', want) /\ mode' = "inplace" /\ i' = lo /\ j' = mid' /\ o' = 0
NextPair == mode' = "pair" /\ lo' = lo + 2 * w /\ UNCHANGED <<w, mid, hi, i, j, o>>
LoadLeft ==
  /\ mode = "load-left"
  /\ IF i < mid - lo THEN Move(lo + i, B + i) /\ i' = i + 1 /\ UNCHANGED <<w, lo, mid, hi, mode, j, o>>
     ELSE mode' = "merge-left" /\ i' = 0 /\ j' = mid /\ o' = lo /\ UNCHANGED <<w, lo, mid, hi>> /\ UNCHANGED bvars
MergeLeft ==
  /\ mode = "merge-left"
  /\ IF i >= mid - lo THEN NextPair /\ UNCHANGED bvars
     ELSE IF j < hi /\ Key(j) < Key(B + i) THEN Move(j, o) /\ j' = j + 1 /\ o' = o + 1 /\ UNCHANGED <<w, lo, mid, hi, mode, i>>
     ELSE Move(B + i, o) /\ i' = i + 1 /\ o' = o + 1 /\ UNCHANGED <<w, lo, mid, hi, mode, j>>
LoadRight ==
  /\ mode = "load-right"
  /\ IF i < hi - mid THEN Move(mid + i, B + i) /\ i' = i + 1 /\ UNCHANGED <<w, lo, mid, hi, mode, j, o>>
     ELSE mode' = "merge-right" /\ i' = hi - mid /\ j' = mid - 1 /\ o' = hi - 1 /\ UNCHANGED <<w, lo, mid, hi>> /\ UNCHANGED bvars
MergeRight ==
  /\ mode = "merge-right"
  /\ IF i = 0 THEN NextPair /\ UNCHANGED bvars
     ELSE IF j >= lo /\ Key(B + i - 1) < Key(j) THEN Move(j, o) /\ j' = j - 1 /\ o' = o - 1 /\ UNCHANGED <<w, lo, mid, hi, mode, i>>
     ELSE Move(B + i - 1, o) /\ i' = i - 1 /\ o' = o - 1 /\ UNCHANGED <<w, lo, mid, hi, mode, j>>
(* in place: i in the left run, j the first element of the right run; an    *)
(* element of the right run that is smaller is carried over through a local *)
InPlace ==
  /\ mode = "inplace"
  /\ IF i >= j \/ j >= hi THEN NextPair /\ UNCHANGED bvars
     ELSE IF Key(j) < Key(i) THEN ToLocal(j, Local) /\ mode' = "shift" /\ o' = j /\ UNCHANGED <<w, lo, mid, hi, i, j>>
     ELSE i' = i + 1 /\ UNCHANGED <<w, lo, mid, hi, mode, j, o>> /\ UNCHANGED bvars
Shift ==
  /\ mode = "shift"
  /\ IF o > i THEN Move(o - 1, o) /\ o' = o - 1 /\ UNCHANGED <<w, lo, mid, hi, mode, i, j>>
     ELSE Move(Local, i) /\ mode' = "drop" /\ UNCHANGED <<w, lo, mid, hi, i, j, o>>
Drop == mode = "drop" /\ Discard(Local, 1) /\ mode' = "inplace" /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<w, lo, mid, hi, o>>
Release == mode = "release" /\ Discard(B, want) /\ mode' = "return" /\ UNCHANGED <<w, lo, mid, hi, i, j, o>>
Done == mode = "return" /\ Return([p \in 1..n |-> at[p]]) /\ mode' = "stop" /\ UNCHANGED <<w, lo, mid, hi, i, j, o>>
Next == Begin \/ Allocate \/ Pair \/ LoadLeft \/ MergeLeft \/ LoadRight \/ MergeRight \/ InPlace \/ Shift \/ Drop \/ Release \/ Done
Spec == Init /\ [][Next]_<<bvars, avars>> /\ WF_<<bvars, avars>>(Next)
(* The sort never gets stuck: whatever the buffer, it returns.             *)
NeverStuck == ENABLED Next \/ mode = "stop"
Terminates == <>(mode = "stop")
==============================================================================
