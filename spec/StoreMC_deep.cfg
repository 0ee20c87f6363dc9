SPECIFICATION Spec
CONSTANTS MaxOps = 6
INVARIANTS RoundTrip ItemRoundTrip KeepsOthers NoDupItems SecRoundTrip StackLen StackHomomorphic MaskIncludeCommute ConcatIsStack
PROPERTIES OthersUntouched FrameSave
CHECK_DEADLOCK FALSE
