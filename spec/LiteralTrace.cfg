SPECIFICATION TSpec
CONSTANTS
  Chars = {}
  MaxLen = 0
  Limits = {}
  MaxTake = 512
  Block = 128
INVARIANT Explained
