SPECIFICATION Spec
CONSTANTS
  MaxX = 3
  MaxY = 2
  MaxF = 2
  Refs = {0, 2, 3}
INVARIANTS Covered Adjacent Remembered
CHECK_DEADLOCK FALSE
