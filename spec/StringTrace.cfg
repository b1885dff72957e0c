SPECIFICATION TSpec
CONSTANTS
  Chars = {}
  MaxLen = 0
INVARIANT Explained
