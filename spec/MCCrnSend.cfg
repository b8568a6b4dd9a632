SPECIFICATION Spec
CONSTANTS
  Counts = {1, 4, 8}
  Values = {0, 3}
  MaxRuns = 2
  AnyRun = FALSE
INVARIANTS Received Short
CHECK_DEADLOCK FALSE
