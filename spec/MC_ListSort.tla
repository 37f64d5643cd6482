---------------------------- MODULE MC_ListSort ------------------------------
EXTENDS ListSort, TLC
CONSTANTS MaxN, MaxKey
Init == \E a \in Algs, n \in 0..MaxN : \E k \in [1..n -> 1..MaxKey] : Start(a, k)
==============================================================================
