SPECIFICATION Spec
CONSTANTS
NR = 2
NC = 2
Vals <- V3
MaxN = 3
INVARIANTS CellsOK MarginsOK Total
CHECK_DEADLOCK FALSE
