SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS RoundTrip ItemRoundTrip KeepsOthers NoDupItems SecRoundTrip StackLen StackHomomorphic MaskIncludeCommute ConcatIsStack
PROPERTIES OthersUntouched FrameSave
CHECK_DEADLOCK FALSE
