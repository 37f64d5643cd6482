CONSTANTS MaxN = 5
 MaxKey = 3
INIT Init
NEXT Next
INVARIANTS OnePlace Kept InPlaceKeeps PrefixSorted SortedAtTheEnd StableAtTheEnd
CHECK_DEADLOCK FALSE
