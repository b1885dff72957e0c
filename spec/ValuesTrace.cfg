SPECIFICATION TSpec
CONSTANTS
  Lines = {}
  Cols = {}
  Chs = {10, 13, 97, 0}
  MaxRegs = 0
INVARIANTS Explained TotalOrder Transitive Forward
CHECK_DEADLOCK FALSE
