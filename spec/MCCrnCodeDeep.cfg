INIT Init
NEXT Next
CONSTANTS
  MaxSyms = 6
  MaxL = 5
INVARIANTS Kraft ReadBack PrefixFree Consecutive
CHECK_DEADLOCK FALSE
