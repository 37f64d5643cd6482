INIT Init
NEXT Next
INVARIANTS SameMeaning Exact InSet NoHooks OneIsEnough
CHECK_DEADLOCK FALSE
