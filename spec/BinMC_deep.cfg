SPECIFICATION Spec
CONSTANTS
  Cells <- MCCells
  Points <- MCPoints
  MaxN = 4
  MaxE = 6
INVARIANTS CodesMatch Partition Monotone LeftRight QuantilesInside EqualCovers SearchLaw
CHECK_DEADLOCK FALSE
