SPECIFICATION Spec
CONSTANTS Lo = 4
          Hi = 18
          MaxLevel = 9
CONSTRAINT Inside
INVARIANTS Shapes Laws Order Scales Lags Table Median
CHECK_DEADLOCK FALSE
