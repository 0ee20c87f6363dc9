SPECIFICATION Spec
CONSTANTS
  Cells <- MCCells
  MaxN = 7
INVARIANTS TableIsDistinct SortedIsPermutation Reconstruct CountsAddUp DupIsComplement SelfMember NeverMember
CHECK_DEADLOCK FALSE
