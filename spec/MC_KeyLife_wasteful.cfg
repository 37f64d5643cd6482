SPECIFICATION Spec
CONSTANTS Wasteful = TRUE
          N = 2
INVARIANTS Sees
CHECK_DEADLOCK FALSE
