SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxN = 6
INVARIANTS WalkFills FillIsTotal FillKeepsValid FillIdempotent LimitOnlyRemoves ShiftComposes ShiftMirror ChangesOrStays PredsComplement FancyDual DeMorgan WhereIsPutMask ClipBetween SearchCounts TileRepeat
CHECK_DEADLOCK FALSE
