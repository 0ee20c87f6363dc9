SPECIFICATION Spec
CONSTANTS
  Cells <- MCCells2
  MaxN = 6
INVARIANTS TableIsDistinct SortedIsPermutation Reconstruct CountsAddUp DupIsComplement SelfMember NeverMember
CHECK_DEADLOCK FALSE
