----------------------------- MODULE MC_Counting ----------------------------
EXTENDS Counting
CONSTANTS MaxLen, MaxN, MaxOps
Sensible(c) == /\ \A i, j \in 1..Len(c) : i < j /\ c[j] = "schwartz" => c[i] \in {"cmp", "cadapt", "mv", "pj", "time", "oop", "hybrid"} \/ (c[i] = "schwartz" /\ j = i + 1)
Chains == {c \in UNION {[1..k -> Kinds] : k \in 0..MaxLen} : Sensible(c)}
Init == \E c \in Chains, p \in BOOLEAN, m \in 0..MaxN : Start(c, p, m)
Bounded == leaf.cmp + leaf.proj + leaf.mv <= MaxOps
=============================================================================
