SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  N = 3
  MaxTabs = 3
VIEW View
INVARIANTS WellFormed FrameOfOthers NewSharesNothing ReadBack HeapOnlyGrows
CHECK_DEADLOCK FALSE
