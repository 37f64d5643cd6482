INIT Init
NEXT Next
INVARIANTS TypeOK SameMeaning Exact Sound OneIsEnough Rejects Missed
CHECK_DEADLOCK FALSE
