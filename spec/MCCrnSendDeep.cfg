SPECIFICATION Spec
CONSTANTS
  Counts = {1, 4, 12}
  Values = {0, 3}
  MaxRuns = 2
  AnyRun = TRUE
INVARIANTS Received Short
CHECK_DEADLOCK FALSE
