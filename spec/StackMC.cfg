SPECIFICATION Spec
INVARIANTS Incremental Counts Blocks NoColumnLost OwnersOK Assoc Sides
CONSTANTS MaxT = 3
MaxR = 1
Vals = {1, 2}
CHECK_DEADLOCK FALSE
