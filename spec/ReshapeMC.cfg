SPECIFICATION Spec
CONSTANTS MaxRows = 3
 NCols = 2
 Vals = {1, 2}
INVARIANTS MeltAll PivotBack PivotSparse PivotFilter DupSeen TransposeTwice TrimSound
CHECK_DEADLOCK FALSE
