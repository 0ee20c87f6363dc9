SPECIFICATION Spec
INVARIANTS Incremental Counts Blocks NoColumnLost OwnersOK Assoc Sides
CONSTANTS MaxT = 4
MaxR = 2
Vals = {1}
CHECK_DEADLOCK FALSE
