SPECIFICATION Spec
CONSTANTS
  Keys <- MCKeys
  MaxL = 4
  MaxR = 4
INVARIANTS ProbeIsLeft DoneIsOuter InnerOfLeft RightIsMirror EveryPairOnce EveryRowAppears NoDuplicationByUniqueRight OldAgreesOnUnique
CHECK_DEADLOCK FALSE
