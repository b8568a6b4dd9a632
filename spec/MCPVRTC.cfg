INIT Init
NEXT Next
CONSTANTS
  Rounds = 1
  Kinds = {"grid", "shares", "move", "flat"}
INVARIANTS Grid Shares Move Flat
CHECK_DEADLOCK FALSE
