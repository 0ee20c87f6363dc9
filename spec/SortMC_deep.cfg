SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  N = 3
VIEW View
INVARIANTS RowsPermuted CacheNotStale ViewNamesExist SortedAfterInplace StableLaws MinorThenMajor
CHECK_DEADLOCK FALSE
