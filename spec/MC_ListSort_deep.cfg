CONSTANTS MaxN = 6
 MaxKey = 4
INIT Init
NEXT Next
INVARIANTS OnePlace Kept InPlaceKeeps PrefixSorted SortedAtTheEnd StableAtTheEnd
CHECK_DEADLOCK FALSE
