SPECIFICATION Spec
CONSTANTS
  Cells <- MCCells2
  MaxN = 4
INVARIANTS TableIsDistinct SortedIsPermutation Reconstruct CountsAddUp DupIsComplement SelfMember NeverMember
CHECK_DEADLOCK FALSE
