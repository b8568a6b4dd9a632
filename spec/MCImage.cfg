SPECIFICATION Spec
CONSTANTS
  MaxW = 9
  MaxH = 9
  Blocks <- QuickBlocks
INVARIANTS TypeOK Outside Untouched Tiled Exact Prefix
PROPERTY Terminates
CHECK_DEADLOCK FALSE
