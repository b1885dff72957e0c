SPECIFICATION VSpec
CONSTANTS
  Lines = {1, 2}
  Cols = {1, 3}
  Chs = {0, 10, 13}
  MaxRegs = 3
INVARIANTS TotalOrder Transitive Forward RoundTrip Classes
PROPERTY Immutable
CHECK_DEADLOCK FALSE
