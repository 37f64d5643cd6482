INIT Init
NEXT Next
INVARIANTS Antisymmetric Reflexive Transitive Total Radix
CHECK_DEADLOCK FALSE
