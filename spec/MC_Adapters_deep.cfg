CONSTANT Depth = 2
INIT Init
NEXT Next
INVARIANTS Progress CatSound TraitSound StableSound GuaranteeSound StableCallable Flattened
CHECK_DEADLOCK FALSE
