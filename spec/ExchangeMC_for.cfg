SPECIFICATION Spec
CONSTANTS
Kinds <- IntKinds
MaxN = 2
MaxSteps = 4
Foreign = TRUE
INVARIANTS SameCells Fits WayHome
CHECK_DEADLOCK FALSE
