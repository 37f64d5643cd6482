------------------------------ MODULE Buffered -------------------------------
(***************************************************************************)
(* Sorting with a buffer whose size somebody else chose.  The elements are *)
(* tokens 1..n (their original positions) that live in places: the cells   *)
(* of the collection, the cells of the buffers the sort created, and local *)
(* variables.  Every step of an algorithm moves one element from a place   *)
(* that holds one into a place that holds none.  Hence the obligations:    *)
(*  - a buffer is asked for with the size of the collection, and has the   *)
(*    size its provider documents: no place beyond it exists;              *)
(*  - a place is read (moved from, compared) only while it holds an element;*)
(*  - no element is overwritten, none is left behind in a buffer;          *)
(*  - the outcome is the one stable outcome: it does not mention buffers.  *)
(***************************************************************************)
EXTENDS Orders
Hole == 0
VARIABLES keys, want, at, phase          \* at: place -> token or Hole; want: documented size of a buffer
bvars == <<keys, want, at, phase>>
Len0 == Len(keys)
RangePlaces == 1..Len(keys)
Idle == keys = <<>> /\ want = 0 /\ at = <<>> /\ phase = "idle"
Call(k, w) == /\ phase \in {"idle", "done"}
              /\ keys' = k /\ want' = w /\ at' = [p \in 1..Len(k) |-> p] /\ phase' = "sorting"
(* A buffer: the cells base .. base + size - 1, all holding nothing useful. *)
Buffer(asked, base, size) ==
  /\ phase = "sorting" /\ asked = Len(keys) /\ size = want
  /\ \A p \in base..(base + size - 1) : p \notin DOMAIN at
  /\ at' = [p \in DOMAIN at \cup (base..(base + size - 1)) |-> IF p \in DOMAIN at THEN at[p] ELSE Hole]
  /\ UNCHANGED <<keys, want, phase>>
Discard(base, size) ==
  /\ phase = "sorting" /\ \A p \in base..(base + size - 1) : p \in DOMAIN at /\ at[p] = Hole
  /\ at' = [p \in DOMAIN at \ (base..(base + size - 1)) |-> at[p]]
  /\ UNCHANGED <<keys, want, phase>>
(* A local variable is created with the element it receives.               *)
ToLocal(src, p) ==
  /\ phase = "sorting" /\ src \in DOMAIN at /\ at[src] # Hole /\ p \notin DOMAIN at
  /\ at' = [q \in DOMAIN at \cup {p} |-> IF q = p THEN at[src] ELSE IF q = src THEN Hole ELSE at[q]]
  /\ UNCHANGED <<keys, want, phase>>
(* moving a place to itself does nothing (an element swapped with itself)  *)
Move(src, dst) ==
  /\ phase = "sorting" /\ {src, dst} \subseteq DOMAIN at /\ (dst = src \/ (at[src] # Hole /\ at[dst] = Hole))
  /\ at' = IF src = dst THEN at ELSE [at EXCEPT ![dst] = at[src], ![src] = Hole]
  /\ UNCHANGED <<keys, want, phase>>
Compare(a, b, lt) ==
  /\ phase = "sorting" /\ {a, b} \subseteq DOMAIN at /\ at[a] # Hole /\ at[b] # Hole
  /\ lt = (keys[at[a]] < keys[at[b]])
  /\ UNCHANGED bvars
Return(outcome) ==
  /\ phase = "sorting" /\ outcome = [p \in 1..Len(keys) |-> at[p]] /\ phase' = "done"
  /\ UNCHANGED <<keys, want, at>>

Conserved == phase # "idle" => \A t \in 1..Len(keys) : Cardinality({p \in DOMAIN at : at[p] = t}) = 1
NoneLeft == phase = "done" => \A p \in DOMAIN at : p <= Len(keys) \/ at[p] = Hole
StableReturn == phase = "done" => StableOutcome(keys, [p \in 1..Len(keys) |-> at[p]])
==============================================================================
