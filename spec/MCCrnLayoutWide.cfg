SPECIFICATION Spec
CONSTANTS
  MaxX = 7
  MaxY = 7
  MaxF = 6
  Refs = {}
INVARIANTS Covered Adjacent
CHECK_DEADLOCK FALSE
