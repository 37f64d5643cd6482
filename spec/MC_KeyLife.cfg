SPECIFICATION Spec
CONSTANTS Wasteful = FALSE
          N = 3
INVARIANTS Sees Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
