SPECIFICATION Spec
CONSTANTS
  Cells <- MCCells
  MaxN = 5
INVARIANTS MergedSums MergedVar MissingPropagates NoMissingAgree QuantileLaws ArgIsExt RollWhole CountsAddUp DescribeAgrees
CHECK_DEADLOCK FALSE
