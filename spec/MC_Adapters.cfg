CONSTANT Depth = 1
INIT Init
NEXT Next
INVARIANTS Progress CatSound TraitSound StableSound GuaranteeSound StableCallable Flattened
CHECK_DEADLOCK FALSE
