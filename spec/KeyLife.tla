------------------------------ MODULE KeyLife -------------------------------
(***************************************************************************)
(* The values projections return.  A projection may return its key by      *)
(* value; a comparison may take its arguments by value, in which case a    *)
(* key given to it as a temporary is moved into the parameter: used up.    *)
(* A key object holds the rank of some element, or nothing.  Whatever a    *)
(* component does with keys, comparisons only ever see keys that hold a    *)
(* rank, and no key outlives the call.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ranks,   \* rank of every element of the collection
          keys,    \* key object -> rank, or Nothing
          phase
kvars == <<ranks, keys, phase>>
Nothing == -1000000
Alive(k) == k \in DOMAIN keys
Holds(k) == Alive(k) /\ keys[k] # Nothing
With(k, v) == [x \in DOMAIN keys \cup {k} |-> IF x = k THEN v ELSE keys[x]]

Begin(r) == phase # "running" /\ phase' = "running" /\ ranks' = r /\ keys' = <<>>
(* a projection returns a new key for an element *)
Project(k, r) == phase = "running" /\ ~Alive(k) /\ r \in {ranks[i] : i \in DOMAIN ranks}
                 /\ keys' = With(k, r) /\ UNCHANGED <<ranks, phase>>
Copy(d, s) == phase = "running" /\ Holds(s) /\ keys' = With(d, keys[s]) /\ UNCHANGED <<ranks, phase>>
Move(d, s) == phase = "running" /\ Alive(s) /\ d # s
              /\ keys' = [x \in DOMAIN keys \cup {d} |-> IF x = d THEN keys[s] ELSE IF x = s THEN Nothing ELSE keys[x]]
              /\ UNCHANGED <<ranks, phase>>
Die(k) == phase = "running" /\ Alive(k) /\ keys' = [x \in DOMAIN keys \ {k} |-> keys[x]] /\ UNCHANGED <<ranks, phase>>
Compare(a, b, less) == phase = "running" /\ Holds(a) /\ Holds(b) /\ less = (keys[a] < keys[b]) /\ UNCHANGED kvars
Return == phase = "running" /\ DOMAIN keys = {} /\ phase' = "idle" /\ UNCHANGED <<ranks, keys>>
=============================================================================
