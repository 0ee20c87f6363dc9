SPECIFICATION Spec
CONSTANTS
  Cells <- MCCells
  MaxN = 5
INVARIANTS TableIsDistinct SortedIsPermutation Reconstruct CountsAddUp DupIsComplement SelfMember NeverMember
CHECK_DEADLOCK FALSE
