------------------------------ MODULE SortCall ------------------------------
(***************************************************************************)
(* One call of a sorter, seen from the outside: the most general protocol  *)
(* a comparison sorter of the library may follow.                          *)
(*                                                                         *)
(* Objects are identified by integers: 1..n are the elements of the range, *)
(* negative numbers are elements of the same collection outside of the     *)
(* range, numbers above n are temporaries of the sorter.  An object holds  *)
(* the value that was originally at some position (1..n in the range), or  *)
(* Hole when it has been moved from.  An object that is not in the domain  *)
(* of `holds' does not exist (raw memory or destroyed).                    *)
(*                                                                         *)
(* `facts' is what the sorter has learned from the comparisons: <<a, b, s>>*)
(* means value a is known not to be greater than value b, and to be less   *)
(* when s = 1.  A sorter that returns without `Evidence' for the order it  *)
(* leaves is wrong for some input with the same comparison results, even   *)
(* if it was lucky on this one (checked by TLC, both ways: MC_SortCall).   *)
(***************************************************************************)
EXTENDS Orders

VARIABLES
  n,        \* length of the range
  rank,     \* rank[v]: what comparisons observe of value v (a weak order)
  holds,    \* object -> value or Hole
  blocks,   \* heap blocks owned by the call
  facts,    \* pairs of values known to be in order
  phase,    \* "idle" "running" "unwinding" "returned" "escaped"
  exc       \* exception in flight or escaped; 0 when there is none
vars == <<n, rank, holds, blocks, facts, phase, exc>>

Hole == 0
RangeObjs == 1..n
OuterObjs == {o \in DOMAIN holds : o < 0}
Temps == {o \in DOMAIN holds : o > n}
Alive(o) == o \in DOMAIN holds
Full(o) == Alive(o) /\ holds[o] # Hole
Inside(o) == o > 0

(* ---- the environment calls the sorter ---- *)
CallState(r, outer) ==
  /\ n = Len(r) /\ rank = r
  /\ holds = [o \in (1..Len(r)) \cup outer |-> o]
  /\ blocks = {} /\ facts = {} /\ phase = "running" /\ exc = 0

(* ---- what the sorter may do while running ---- *)
Running == phase = "running"
Unwinding == phase = "unwinding"

(* Comparing two objects tells the order of the values they hold. *)
Compare(a, b, less) ==
  /\ Running /\ Full(a) /\ Full(b) /\ Inside(a) /\ Inside(b)
  /\ less = (rank[holds[a]] < rank[holds[b]])
  /\ facts' = facts \cup {IF less THEN <<holds[a], holds[b], 1>> ELSE <<holds[b], holds[a], 0>>}
  /\ UNCHANGED <<n, rank, holds, blocks, phase, exc>>

(* A projection is applied to an element; nothing is learned. *)
Project(a) == Running /\ Full(a) /\ Inside(a) /\ UNCHANGED vars

(* A new object takes over the value of another one; moving from an object *)
(* that holds no value gives another one (pdqsort does so through proxy    *)
(* iterators when its pivot is already in place).                          *)
MoveConstruct(dst, src) ==
  /\ Running \/ Unwinding
  /\ ~Alive(dst) /\ dst > n /\ Alive(src) /\ Inside(src)
  /\ holds' = [o \in DOMAIN holds \cup {dst} |->
                 IF o = dst THEN holds[src] ELSE IF o = src THEN Hole ELSE holds[o]]
  /\ UNCHANGED <<n, rank, blocks, facts, phase, exc>>

(* A new object is created without a value (buffers of default-            *)
(* constructible elements).                                                *)
DefaultConstruct(dst) ==
  /\ Running /\ ~Alive(dst) /\ dst > n
  /\ holds' = [o \in DOMAIN holds \cup {dst} |-> IF o = dst THEN Hole ELSE holds[o]]
  /\ UNCHANGED <<n, rank, blocks, facts, phase, exc>>

(* An existing object takes over a value: no value may be overwritten.     *)
MoveAssign(dst, src) ==
  /\ Running \/ Unwinding
  /\ dst # src /\ Alive(dst) /\ holds[dst] = Hole /\ Alive(src) /\ Inside(src) /\ Inside(dst)
  /\ holds' = [holds EXCEPT ![dst] = holds[src], ![src] = Hole]
  /\ UNCHANGED <<n, rank, blocks, facts, phase, exc>>

(* A blind self-move of a value is never allowed; the self-move of an      *)
(* object without a value is what swapping an object with itself does.     *)
SelfAssign(o) == (Running \/ Unwinding) /\ Alive(o) /\ Inside(o) /\ holds[o] = Hole /\ UNCHANGED vars

(* While running only empty temporaries may be destroyed; unwinding may    *)
(* lose the values still held by temporaries.                              *)
Destroy(o) ==
  /\ Running \/ Unwinding
  /\ Alive(o) /\ o > n
  /\ Running => holds[o] = Hole
  /\ holds' = [p \in DOMAIN holds \ {o} |-> holds[p]]
  /\ UNCHANGED <<n, rank, blocks, facts, phase, exc>>

Allocate(b) == Running /\ b \notin blocks /\ blocks' = blocks \cup {b}
               /\ UNCHANGED <<n, rank, holds, facts, phase, exc>>
Deallocate(b) == (Running \/ Unwinding) /\ b \in blocks /\ blocks' = blocks \ {b}
                 /\ UNCHANGED <<n, rank, holds, facts, phase, exc>>

(* ---- faults ---- *)
BadAlloc == 1
(* A comparison, projection, move or throwing allocation fails. *)
Throw(e) == Running /\ e > 0 /\ phase' = "unwinding" /\ exc' = e
            /\ UNCHANGED <<n, rank, holds, blocks, facts>>
(* A non-throwing allocation fails: the sorter goes on with less memory. *)
AllocFails == Running /\ UNCHANGED vars
(* Some components fall back on another algorithm after std::bad_alloc;    *)
(* no other exception is the library's to catch, and *)
(* no value may have been lost on the way (found by TLC: see Conserved).                         *)
CatchBadAlloc == Unwinding /\ exc = BadAlloc /\ {holds[o] : o \in {p \in DOMAIN holds : holds[p] # Hole /\ p > 0}} = 1..n
                 /\ phase' = "running" /\ exc' = 0
                 /\ UNCHANGED <<n, rank, holds, blocks, facts>>

(* ---- the end of the call ---- *)
Clean == Temps = {} /\ blocks = {}
FinalOrder == [i \in 1..n |-> holds[i]]

RECURSIVE Reach(_, _, _)
Reach(from, seen, F) ==      \* values reachable from the set `from'
  LET next == {f[2] : f \in {g \in F : g[1] \in from}} \ seen IN
  IF next = {} THEN seen ELSE Reach(next, seen \cup next, F)
KnownLE(a, b) == b \in Reach({a}, {a}, facts)
KnownLess(a, b) == LET up == Reach({a}, {a}, facts)
                       down == Reach({b}, {b}, {<<f[2], f[1]>> : f \in facts}) IN
                   \E f \in facts : f[3] = 1 /\ f[1] \in up /\ f[2] \in down
Justified(a, b, stable) == IF stable /\ a > b THEN KnownLess(a, b) ELSE KnownLE(a, b)
Evidence(stable) == \A i \in 1..(n - 1) : Justified(holds[i], holds[i + 1], stable)

Return(stable) ==
  /\ Running /\ Clean
  /\ \A i \in RangeObjs : Full(i)
  /\ Evidence(stable)
  /\ phase' = "returned"
  /\ UNCHANGED <<n, rank, holds, blocks, facts, exc>>
(* A measure of presortedness follows the same protocol, but the only      *)
(* order it may leave is the one it was given.                             *)
ReturnUntouched ==
  /\ Running /\ Clean /\ \A i \in RangeObjs : holds[i] = i
  /\ phase' = "returned"
  /\ UNCHANGED <<n, rank, holds, blocks, facts, exc>>
Escape ==
  /\ Unwinding /\ Clean
  /\ phase' = "escaped"
  /\ UNCHANGED <<n, rank, holds, blocks, facts, exc>>

(* ---- what users rely on ---- *)
Values == {holds[o] : o \in {p \in DOMAIN holds : holds[p] # Hole /\ p > 0}}
(* Each value is held by exactly one object... *)
NoDuplicate == \A o, p \in DOMAIN holds : (o # p /\ holds[o] # Hole) => holds[o] # holds[p]
(* ...and none is lost as long as nothing has been thrown. *)
Conserved == (phase \in {"running", "returned"} /\ exc = 0) => Values = 1..n
OutsideUntouched == \A o \in OuterObjs : holds[o] = o
SortedOnReturn == phase = "returned" =>
  /\ Clean /\ SortedOutcome(rank, FinalOrder)
CleanOnEscape == phase = "escaped" => Clean /\ (\A i \in RangeObjs : Alive(i)) /\ exc # 0
(* Stability needs evidence of its own: equivalent elements leave in their *)
(* original order.                                                         *)
StableOnReturn == phase = "returned" => StableOutcome(rank, FinalOrder)
=============================================================================
