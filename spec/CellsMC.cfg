SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  N = 3
  MaxTabs = 3
VIEW View
INVARIANTS WellFormed FrameOfOthers NewSharesNothing ReadBack HeapOnlyGrows
CHECK_DEADLOCK FALSE
