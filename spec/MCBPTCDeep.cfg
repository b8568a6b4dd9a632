INIT Init
NEXT Next
CONSTANTS
  Rounds = 16
  Kinds = {"bc7", "bc6", "tables"}
INVARIANTS BC7ReadBack BC6Layout BC6ReadBack BC6Reserved Tables
CHECK_DEADLOCK FALSE
