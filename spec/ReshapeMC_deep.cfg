SPECIFICATION Spec
CONSTANTS MaxRows = 3
 NCols = 3
 Vals = {1, 2}
INVARIANTS MeltAll PivotBack PivotSparse DupSeen TransposeTwice TrimSound
CHECK_DEADLOCK FALSE
