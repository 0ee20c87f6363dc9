SPECIFICATION Spec
CONSTANTS
  Cells <- MCCells
  Points <- MCPoints
  MaxN = 3
  MaxE = 5
INVARIANTS CodesMatch Partition Monotone LeftRight QuantilesInside EqualCovers SearchLaw
CHECK_DEADLOCK FALSE
