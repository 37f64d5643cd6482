CONSTANTS
  MaxMag = 2
  MaxLen = 4
INIT Init
NEXT Next
INVARIANTS FpOrders NaturalOrder CaseOrder Laws
CHECK_DEADLOCK FALSE
