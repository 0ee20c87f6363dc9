SPECIFICATION Spec
CONSTANTS
  Times = {1, 2, 4}
  MaxL = 2
  MaxR = 3
  Unsorted = TRUE
INVARIANTS WalkIsBackward NearestIsClosest ToleranceOnlyRemoves ExactIsJoin RowsIndependent 
CHECK_DEADLOCK FALSE
