------------------------------ MODULE ListSort -------------------------------
(* Sorting a linked list by relinking its nodes.  A node is its address: it   *)
(* never changes its value, it only changes its place in one of the lists.    *)
(* coll is the collection, aux the other lists the algorithm uses.            *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt
VARIABLES alg, key, coll, aux, len, phase, gone
vars == <<alg, key, coll, aux, len, phase, gone>>
Algs == {"insertion", "selection", "merge", "mel"}
StableAlgs == {"insertion", "selection", "merge"}
Nodes == 1..Len(key)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PutAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Sorted(s) == \A i \in 1..(Len(s) - 1) : key[s[i]] <= key[s[i + 1]]
Start(a, k) == /\ alg = a /\ key = k /\ gone = {} /\ len = 0
               /\ coll = [i \in 1..Len(k) |-> i] /\ aux = <<>> /\ phase = "run"
(* one list, one node spliced at a time                                       *)
UpperBound(s, n, x) == 1 + Cardinality({i \in 1..n : key[s[i]] <= x})      \* s[1..n] is sorted
InsertionStep ==
  /\ alg = "insertion" /\ phase = "run" /\ len < Len(coll)
  /\ LET x == coll[len + 1] IN coll' = PutAt(Without(coll, len + 1), UpperBound(coll, len, key[x]), x)
  /\ len' = len + 1 /\ UNCHANGED <<alg, key, aux, phase, gone>>
LeftmostMin(s, n) == CHOOSE i \in n..Len(s) : (\A j \in n..Len(s) : key[s[i]] <= key[s[j]]) /\ (\A j \in n..(i - 1) : key[s[j]] > key[s[i]])
SelectionStep ==
  /\ alg = "selection" /\ phase = "run" /\ len < Len(coll)
  /\ LET i == LeftmostMin(coll, len + 1) IN coll' = PutAt(Without(coll, i), len + 1, coll[i])
  /\ len' = len + 1 /\ UNCHANGED <<alg, key, aux, phase, gone>>
(* std::list::merge: nodes of the second list go before the nodes of the      *)
(* first one that are greater, and after those that are equivalent            *)
RECURSIVE Merged(_, _)
Merged(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                ELSE IF key[Head(b)] < key[Head(a)] THEN <<Head(b)>> \o Merged(a, Tail(b))
                ELSE <<Head(a)>> \o Merged(Tail(a), b)
(* merge sort: cut a piece in two, merge neighbours; the pieces, in order, are *)
(* aux; the collection is the first of them                                   *)
MergeSplit ==
  /\ alg = "merge" /\ phase = "run"
  /\ \E p \in 0..Len(aux) :
       LET s == IF p = 0 THEN coll ELSE aux[p]  h == Len(s) \div 2 IN
       /\ Len(s) > 1 /\ ~Sorted(s)
       /\ LET a == SubSeq(s, 1, h)  b == SubSeq(s, h + 1, Len(s)) IN
          IF p = 0 THEN coll' = a /\ aux' = <<b>> \o aux
                   ELSE coll' = coll /\ aux' = SubSeq(aux, 1, p - 1) \o <<a, b>> \o SubSeq(aux, p + 1, Len(aux))
  /\ UNCHANGED <<alg, key, len, phase, gone>>
MergeMerge ==
  /\ alg = "merge" /\ phase = "run"
  /\ \E p \in 0..(Len(aux) - 1) :
       LET a == IF p = 0 THEN coll ELSE aux[p]  b == aux[p + 1] IN
       /\ Sorted(a) /\ Sorted(b)
       /\ IF p = 0 THEN coll' = Merged(a, b) /\ aux' = Tail(aux)
                   ELSE coll' = coll /\ aux' = SubSeq(aux, 1, p - 1) \o <<Merged(a, b)>> \o SubSeq(aux, p + 2, Len(aux))
  /\ UNCHANGED <<alg, key, len, phase, gone>>
(* melsort: nodes are dealt to encroaching lists, which are then merged       *)
MelDeal ==
  /\ alg = "mel" /\ phase = "run" /\ coll # <<>>
  /\ LET x == Head(coll) IN
     \/ \E p \in 1..Len(aux) : key[aux[p][Len(aux[p])]] <= key[x] /\ aux' = [aux EXCEPT ![p] = Append(@, x)]
     \/ \E p \in 1..Len(aux) : key[aux[p][1]] >= key[x] /\ aux' = [aux EXCEPT ![p] = <<x>> \o @]
     \/ (\A p \in 1..Len(aux) : key[aux[p][Len(aux[p])]] > key[x] /\ key[aux[p][1]] < key[x]) /\ aux' = Append(aux, <<x>>)
  /\ coll' = Tail(coll) /\ UNCHANGED <<alg, key, len, phase, gone>>
MelMerge ==
  /\ alg = "mel" /\ phase = "run" /\ coll = <<>>
  /\ \/ \E p, q \in 1..Len(aux) : p < q /\ aux' = Without([aux EXCEPT ![p] = Merged(aux[p], aux[q])], q) /\ coll' = coll
     \/ Len(aux) = 1 /\ coll' = aux[1] /\ aux' = <<>>
  /\ UNCHANGED <<alg, key, len, phase, gone>>
Finish == /\ phase = "run" /\ aux = <<>>
          /\ CASE alg \in {"insertion", "selection"} -> len = Len(coll) [] alg = "merge" -> Sorted(coll) [] OTHER -> Len(coll) = Len(key) /\ Sorted(coll)
          /\ phase' = "done" /\ UNCHANGED <<alg, key, coll, aux, len, gone>>
(* a comparison or a projection throws: the nodes of the other lists go away  *)
(* with them, the collection remains a list of the others                     *)
Abort == /\ phase = "run" /\ phase' = "aborted"
         /\ gone' = UNION {ToSet(aux[p]) : p \in 1..Len(aux)} /\ aux' = <<>>
         /\ UNCHANGED <<alg, key, coll, len>>
Next == InsertionStep \/ SelectionStep \/ MergeSplit \/ MergeMerge \/ MelDeal \/ MelMerge \/ Finish \/ Abort
(* ---- what a user relies on                                                 *)
Lists == <<coll>> \o aux
(* every node is in exactly one place                                         *)
OnePlace == /\ \A n \in Nodes : Cardinality({<<p, i>> \in (1..Len(Lists)) \X Nodes : i <= Len(Lists[p]) /\ Lists[p][i] = n})
                                + (IF n \in gone THEN 1 ELSE 0) = 1
            /\ \A p \in 1..Len(Lists) : \A i \in 1..Len(Lists[p]) : Lists[p][i] \in Nodes
Kept == phase # "aborted" => gone = {}
InPlaceKeeps == alg \in {"insertion", "selection"} => gone = {} /\ aux = <<>>
PrefixSorted == alg \in {"insertion", "selection"} => Sorted(SubSeq(coll, 1, len))
SortedAtTheEnd == phase = "done" => Sorted(coll) /\ ToSet(coll) = Nodes
StableAtTheEnd == phase = "done" /\ alg \in StableAlgs =>
  \A i \in 1..(Len(coll) - 1) : key[coll[i]] = key[coll[i + 1]] => coll[i] < coll[i + 1]
==============================================================================
