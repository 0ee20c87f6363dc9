SPECIFICATION Spec
CONSTANTS
Kinds <- IntKinds
MaxN = 3
MaxSteps = 6
Foreign = TRUE
INVARIANTS SameCells Fits WayHome
CHECK_DEADLOCK FALSE
