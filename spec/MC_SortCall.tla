---------------------------- MODULE MC_SortCall -----------------------------
(* Exhaustive check of the protocol for small ranges: every sorter that    *)
(* respects the protocol sorts, conserves values and cleans up.            *)
EXTENDS SortCall
CONSTANTS MaxN, MaxTemps, MaxBlocks, WithFaults, UseCustody, Stable
VARIABLE caught
TempIds == (MaxN + 1)..(MaxN + MaxTemps)
mcvars == <<vars, caught>>
Init == \E m \in 0..MaxN : \E r \in WeakOrders(m) :
          CallState(r, IF m < MaxN THEN {-1} ELSE {}) /\ caught = FALSE
(* With custody switched off the sorter permutes the range by exchanges    *)
(* only; this leaves room for larger ranges.                               *)
Exchange(i, j) ==
  /\ Running /\ i < j /\ holds' = [holds EXCEPT ![i] = holds[j], ![j] = holds[i]]
  /\ UNCHANGED <<n, rank, blocks, facts, phase, exc>>
Next ==
  \/ /\ UNCHANGED caught
     /\ \/ \E a, b \in DOMAIN holds : a # b /\ \E l \in BOOLEAN : Compare(a, b, l)
        \/ /\ UseCustody
           /\ \/ \E d \in TempIds, s \in DOMAIN holds : MoveConstruct(d, s)
              \/ \E d, s \in DOMAIN holds : MoveAssign(d, s)
              \/ \E o \in DOMAIN holds : Destroy(o) \/ SelfAssign(o)
              \/ \E d \in TempIds : DefaultConstruct(d)
              \/ \E b \in 1..MaxBlocks : Allocate(b) \/ Deallocate(b)
        \/ ~UseCustody /\ \E i, j \in RangeObjs : Exchange(i, j)
        \/ WithFaults /\ \E e \in 1..2 : Throw(e)
        \/ Return(Stable)
        \/ Escape
  \/ WithFaults /\ ~caught /\ CatchBadAlloc /\ caught' = TRUE
Spec == Init /\ [][Next]_mcvars
(* What a state knows, up to transitive closure.                           *)
View == <<n, rank, holds, blocks, phase, exc, caught,
          {<<a, b>> \in (1..n) \X (1..n) : KnownLE(a, b)}, {<<a, b>> \in (1..n) \X (1..n) : KnownLess(a, b)}>>
StableWhenAsked == Stable => StableOnReturn
(* Evidence is not only sufficient but necessary: without it, another      *)
(* input with the same comparison results makes this arrangement wrong.    *)
Consistent(r) == \A f \in facts : IF f[3] = 1 THEN r[f[1]] < r[f[2]] ELSE r[f[1]] <= r[f[2]]
Allows(r, order) == IF Stable THEN StableOutcome(r, order) ELSE SortedOutcome(r, order)
EvidenceIsNecessary ==
  (Running /\ (\A i \in RangeObjs : Full(i)) /\ ~Evidence(Stable))
    => \E r \in WeakOrders(n) : Consistent(r) /\ ~Allows(r, FinalOrder)
(* Vacuity: the interesting situations are reachable.                      *)
NeverReturns == phase # "returned"
NeverEscapes == phase # "escaped"
=============================================================================
