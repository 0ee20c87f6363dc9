SPECIFICATION Spec
CONSTANTS
  Keys <- MCKeys
  Vals <- MCVals
  MaxRows = 4
INVARIANTS GroupsAgree LexIsPermutation Partition Chain FirstLast Reductions RunningOps Consistency TotalSum
CHECK_DEADLOCK FALSE
