SPECIFICATION Spec
CONSTANTS
  Keys <- MCKeys
  MaxL = 3
  MaxR = 3
INVARIANTS ProbeIsLeft DoneIsOuter InnerOfLeft RightIsMirror EveryPairOnce EveryRowAppears NoDuplicationByUniqueRight OldAgreesOnUnique
CHECK_DEADLOCK FALSE
