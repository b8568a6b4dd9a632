INIT Init
NEXT Next
CONSTANTS
  MaxSyms = 5
  MaxL = 4
INVARIANTS Kraft ReadBack PrefixFree Consecutive
CHECK_DEADLOCK FALSE
