SPECIFICATION Spec
CONSTANTS
  Chars <- MCChars
  MaxLen = 4
INVARIANT TypeOK
INVARIANT ObsConsistent
PROPERTY BackLaw
PROPERTY FrontLaw
PROPERTY PopLaw
CHECK_DEADLOCK FALSE
