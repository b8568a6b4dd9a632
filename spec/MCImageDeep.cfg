SPECIFICATION Spec
CONSTANTS
  MaxW = 15
  MaxH = 15
  Blocks <- DeepBlocks
INVARIANTS TypeOK Outside Untouched Tiled Exact Prefix
PROPERTY Terminates
CHECK_DEADLOCK FALSE
