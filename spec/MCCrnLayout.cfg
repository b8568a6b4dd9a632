SPECIFICATION Spec
CONSTANTS
  MaxX = 3
  MaxY = 2
  MaxF = 1
  Refs = {0, 1, 2, 3}
INVARIANTS Covered Adjacent Remembered
CHECK_DEADLOCK FALSE
