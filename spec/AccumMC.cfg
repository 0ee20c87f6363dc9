SPECIFICATION Spec
CONSTANTS
NR = 1
NC = 2
Vals <- V2
MaxN = 3
INVARIANTS CellsOK MarginsOK Total
CHECK_DEADLOCK FALSE
