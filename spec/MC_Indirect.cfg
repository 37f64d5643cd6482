SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS Conserved InPlaceNeverMove FrugalAtEnd PlacedAtEnd LabelsRight
PROPERTY Terminates
CHECK_DEADLOCK TRUE
