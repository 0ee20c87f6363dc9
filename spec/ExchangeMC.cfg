SPECIFICATION Spec
CONSTANTS
Kinds <- HomeKinds
MaxN = 2
MaxSteps = 4
Foreign = FALSE
INVARIANTS SameCells Fits WayHome
CHECK_DEADLOCK FALSE
