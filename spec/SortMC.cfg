SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  N = 2
VIEW View
INVARIANTS RowsPermuted CacheNotStale ViewNamesExist SortedAfterInplace StableLaws MinorThenMajor
CHECK_DEADLOCK FALSE
