SPECIFICATION Spec
CONSTANTS
  Times = {1, 2, 4}
  MaxL = 3
  MaxR = 4
  Unsorted = FALSE
INVARIANTS WalkIsBackward NearestIsClosest ToleranceOnlyRemoves ExactIsJoin RowsIndependent ForwardIsMirror
CHECK_DEADLOCK FALSE
