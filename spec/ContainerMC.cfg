SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "ab"}
  Vectors <- MCVectors
  Kinds = {"D", "S"}
  Depth = 2
VIEW View
INVARIANTS UniqueNames Paired EqualLengths LabelsExist
PROPERTIES RefusedIsNoop LockedKeepsColumns
CHECK_DEADLOCK FALSE
