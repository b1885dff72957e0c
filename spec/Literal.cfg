SPECIFICATION Spec
CONSTANTS
  Chars <- MCChars
  MaxLen = 5
  Limits = {0, 1, 4, 5}
  MaxTake = 4
  Block = 4
INVARIANT Faithful
INVARIANT PrefixSoFar
INVARIANT Enough
INVARIANT RefusedIff
PROPERTY Ends
CHECK_DEADLOCK FALSE
