SPECIFICATION Spec
CONSTANTS
  Times = {1, 2, 4}
  MaxL = 2
  MaxR = 3
  Unsorted = FALSE
INVARIANTS WalkIsBackward NearestIsClosest ToleranceOnlyRemoves ExactIsJoin RowsIndependent ForwardIsMirror
CHECK_DEADLOCK FALSE
