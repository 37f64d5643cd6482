------------------------------ MODULE Counting ------------------------------
(***************************************************************************)
(* Sorters that report what the sorter they adapt did: counting_adapter    *)
(* and the metrics, stacked with each other and with other adapters around *)
(* a sorter, called with or without a projection.                          *)
(*                                                                         *)
(* A chain <<w1, ..., wk>> names the adapters from the outside in:         *)
(*   "cmp" metrics::comparisons    "cadapt"   counting_adapter             *)
(*   "mv"  metrics::moves          "schwartz" schwartz_adapter             *)
(*   "pj"  metrics::projections    "oop"      out_of_place_adapter         *)
(*   "time" metrics::running_time  "indirect" indirect_adapter             *)
(*   "hybrid" hybrid_adapter       "stable"   stable_adapter               *)
(* Every comparison, projection and move the sorter makes travels outwards *)
(* through the adapters; each counter counts what goes through it, and the *)
(* comparison and projection of the caller are called for what gets out.   *)
(*                                                                         *)
(* Comparisons and projections are passed by value: the sorter may use     *)
(* copies of them. ByRef says that the copies share their counter, which   *)
(* is what makes the counts exact.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT ByRef
None == -1  SorterValue == -2   \* not returned yet; what the sorter returns
VARIABLES chain, given, n, depth, cnt, user, leaf, ret

Counts(w) == w \in {"cmp", "cadapt", "mv", "pj", "time"}
CmpCounters == {"cmp", "cadapt"}
Kinds == {"cmp", "cadapt", "mv", "pj", "time", "schwartz", "oop", "indirect", "hybrid", "stable"}
(* adapters through which the operations of what they adapt go one by one  *)
CmpThrough(w)  == w # "stable"
MoveThrough(w) == w \in {"cmp", "cadapt", "pj", "time", "hybrid"}
ProjThrough(w) == w \notin {"stable", "schwartz", "indirect"}

(* Whether the adapter at i of c is given a projection that is not the identity. *)
GivenProj(c, p, i) == p \/ \E j \in 1..(i - 1) : c[j] \in {"pj", "mv"}
(* schwartz_adapter projects every element once, unless there is nothing to project *)
Transforms(c, p, i) == c[i] = "schwartz" /\ GivenProj(c, p, i)

(* What goes one by one from the sorter through everything further in than i. *)
CmpClear(c, i)  == \A j \in (i + 1)..Len(c) : CmpThrough(c[j])
MoveClear(c, i) == \A j \in (i + 1)..Len(c) : MoveThrough(c[j])
(* Where projections seen by i come from: the sorter, the nearest schwartz   *)
(* transformation further in, or there is no saying.                        *)
ProjSource(c, p, i) ==
  LET cuts == {j \in (i + 1)..Len(c) : ~ProjThrough(c[j]) /\ ~(c[j] = "schwartz" /\ ~Transforms(c, p, j))} IN
  IF cuts = {} THEN "sorter"
  ELSE LET j == CHOOSE x \in cuts : \A y \in cuts : x <= y IN IF c[j] = "schwartz" THEN "elements" ELSE "unknown"
First(c) == IF \E i \in 1..Len(c) : Counts(c[i]) THEN CHOOSE i \in 1..Len(c) : Counts(c[i]) /\ \A j \in 1..(i - 1) : ~Counts(c[j]) ELSE 0

(* The documented relations between what a call returned ("ret") and what  *)
(* the caller and the sorter saw: pairs that have to be equal.              *)
Relations(c, p) ==
  LET f == First(c)  w == IF f = 0 THEN "none" ELSE c[f] IN
     (IF w = "none" THEN {<<"ret", "value">>} ELSE {})
  \cup (IF w \in CmpCounters /\ \A j \in 1..(f - 1) : CmpThrough(c[j]) THEN {<<"ret", "user.cmp">>} ELSE {})
  \cup (IF w \in CmpCounters /\ CmpClear(c, f) THEN {<<"ret", "sorter.cmp">>} ELSE {})
  \cup (IF CmpClear(c, 0) THEN {<<"user.cmp", "sorter.cmp">>} ELSE {})
  \cup (IF w = "mv" /\ MoveClear(c, f) THEN {<<"ret", "sorter.mv">>} ELSE {})
  \cup (IF w = "pj" THEN (IF ProjSource(c, p, f) = "sorter" THEN {<<"ret", "sorter.proj">>}
                          ELSE IF ProjSource(c, p, f) = "elements" THEN {<<"ret", "n">>} ELSE {})
                   \cup (IF p /\ \A j \in 1..(f - 1) : ProjThrough(c[j]) THEN {<<"ret", "user.proj">>} ELSE {})
        ELSE {})
  \cup (IF p THEN (IF ProjSource(c, p, 0) = "sorter" THEN {<<"user.proj", "sorter.proj">>}
                   ELSE IF ProjSource(c, p, 0) = "elements" THEN {<<"user.proj", "n">>, <<"user.projmax", "once">>} ELSE {})
        ELSE {})
  \cup (IF w = "time" THEN {<<"ret", "elapsed">>} ELSE {})
  (* the elements metrics::moves counts with are those of a collection with *)
  (* the same kind of iterators                                             *)
  \cup (IF w = "mv" /\ f = 1 /\ MoveClear(c, 1) THEN {<<"sorter.cat", "collection">>} ELSE {})

-----------------------------------------------------------------------------
vars == <<chain, given, n, depth, cnt, user, leaf, ret>>
Zero(k) == [i \in 1..k |-> 0]
Start(c, p, m) ==
  /\ chain = c /\ given = p /\ n = m /\ depth = 0 /\ cnt = Zero(Len(c)) /\ ret = None
  /\ user = [cmp |-> 0, proj |-> [e \in 1..m |-> 0]] /\ leaf = [cmp |-> 0, proj |-> 0, mv |-> 0]

(* The counters a projection made just inside of i goes through.            *)
RECURSIVE ProjReach(_, _, _)
ProjReach(c, p, i) == IF i = 0 \/ ~(ProjThrough(c[i]) \/ (c[i] = "schwartz" /\ ~Transforms(c, p, i))) THEN {i} ELSE {i} \cup ProjReach(c, p, i - 1)
(* Entering a schwartz_adapter projects all the elements; every projection  *)
(* starts just outside of it.                                               *)
Enter == /\ depth < Len(chain)
         /\ depth' = depth + 1
         /\ LET i == depth + 1
                R == ProjReach(chain, given, i - 1) IN
            IF Transforms(chain, given, i) /\ ~(i > 1 /\ chain[i - 1] = "schwartz")      \* directly nested ones are the same as one
            THEN /\ cnt' = [j \in DOMAIN cnt |-> IF j \in R /\ chain[j] = "pj" THEN cnt[j] + n ELSE cnt[j]]
                 /\ user' = IF 0 \in R /\ given THEN [user EXCEPT !.proj = [e \in 1..n |-> @[e] + 1]] ELSE user
            ELSE UNCHANGED <<cnt, user>>
         /\ UNCHANGED <<chain, given, n, leaf, ret>>

Sorting == depth = Len(chain) /\ ret = None
(* A comparison, through one of the copies of the comparison the sorter has. *)
(* stable_adapter makes one or two comparisons of one of its sorter.         *)
Compare == /\ Sorting
           /\ \E copy \in {1, 2}, twice \in [{i \in 1..Len(chain) : chain[i] = "stable"} -> {1, 2}] :
                LET F[i \in 0..Len(chain)] == IF i = Len(chain) THEN 1 ELSE F[i + 1] * (IF i + 1 \in DOMAIN twice THEN twice[i + 1] ELSE 1) IN   \* how many of them arrive just outside of i + 1
                /\ cnt' = [j \in DOMAIN cnt |-> IF chain[j] \in CmpCounters /\ (ByRef \/ copy = 1) THEN cnt[j] + F[j] ELSE cnt[j]]
                /\ user' = [user EXCEPT !.cmp = @ + F[0]]
           /\ leaf' = [leaf EXCEPT !.cmp = @ + 1]
           /\ UNCHANGED <<chain, given, n, depth, ret>>
Project == /\ Sorting /\ n > 0
           /\ \E copy \in {1, 2}, e \in 1..n :
                LET R == ProjReach(chain, given, Len(chain)) IN
                /\ cnt' = [j \in DOMAIN cnt |-> IF j \in R /\ chain[j] = "pj" /\ (ByRef \/ copy = 1) THEN cnt[j] + 1 ELSE cnt[j]]
                /\ user' = IF 0 \in R /\ given THEN [user EXCEPT !.proj[e] = @ + 1] ELSE user
           /\ leaf' = [leaf EXCEPT !.proj = @ + 1]
           /\ UNCHANGED <<chain, given, n, depth, ret>>
(* What becomes of a move beyond the adapters moves go through one by one is *)
(* their business.                                                           *)
Move == /\ Sorting
        /\ cnt' = [j \in DOMAIN cnt |-> IF chain[j] = "mv" /\ MoveClear(chain, j) THEN cnt[j] + 1 ELSE cnt[j]]
        /\ leaf' = [leaf EXCEPT !.mv = @ + 1]
        /\ UNCHANGED <<chain, given, n, depth, user, ret>>
Return == /\ Sorting
          /\ ret' = IF First(chain) = 0 THEN SorterValue ELSE cnt[First(chain)]
          /\ UNCHANGED <<chain, given, n, depth, cnt, user, leaf>>
Next == Enter \/ Compare \/ Project \/ Move \/ Return

Sum(f) == LET S[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE S[i - 1] + f[i] IN S[Len(f)]
Value(x) == CASE x = "ret" -> ret [] x = "user.cmp" -> user.cmp [] x = "user.proj" -> Sum(user.proj) [] x = "sorter.cmp" -> leaf.cmp
              [] x = "sorter.proj" -> leaf.proj [] x = "sorter.mv" -> leaf.mv [] x = "n" -> n [] x = "value" -> SorterValue [] OTHER -> 0
Holds(r) == CASE r[1] = "user.projmax" -> \A e \in 1..n : user.proj[e] = 1
              [] r[2] \in {"elapsed", "collection"} -> TRUE
              [] OTHER -> Value(r[1]) = Value(r[2])
RelationsHold == ret # None => \A r \in Relations(chain, given) : Holds(r)
(* A schwartz_adapter calls a projection at most once per element            *)
Schwartzian == (\E i \in 1..Len(chain) : chain[i] = "schwartz" /\ \A j \in 1..(i - 1) : ProjThrough(chain[j])) => \A e \in 1..n : user.proj[e] <= 1
(* Nothing is counted that did not happen                                    *)
Accounted == \A i \in 1..Len(chain) : (chain[i] \in CmpCounters /\ CmpClear(chain, i) => cnt[i] <= leaf.cmp)
                                   /\ (chain[i] = "mv" => cnt[i] <= leaf.mv)
=============================================================================
