SPECIFICATION Spec
CONSTANTS
  Chars <- MCChars
  MaxN = 7
  MaxP = 3
INVARIANTS FoundFirst FoundIff Replaced EndsWhen Mirror Cases Slices RegexLiteral Stop Plus
CHECK_DEADLOCK FALSE
