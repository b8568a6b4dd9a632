INIT Init
NEXT Next
CONSTANTS
  Rounds = 1
  Kinds = {"mode", "seq", "wseq", "part", "block", "packs", "decimate", "ends"}
INVARIANTS Packs SeqReadBack Levels Modes Partitions Ends Decimate BlockReadBack
CHECK_DEADLOCK FALSE
