INIT Init
NEXT Next
CONSTANTS
  Rounds = 8
  Kinds = {"grid", "shares", "move", "flat"}
INVARIANTS Grid Shares Move Flat
CHECK_DEADLOCK FALSE
