SPECIFICATION Spec
CONSTANTS Lo = 7
          Hi = 14
          MaxLevel = 5
CONSTRAINT Inside
INVARIANTS Shapes Laws Order Scales Lags Table Median
CHECK_DEADLOCK FALSE
