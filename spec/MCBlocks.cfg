INIT Init
NEXT Next
CONSTANTS
  Rounds = 4
  Kinds = {"ramp", "half", "bc", "atc", "etc", "T", "H", "planar", "eac"}
INVARIANTS Ramps Halves BCReadBack ATCReadBack EtcReadBack THidden HHidden PlanarHidden EacReadBack
CHECK_DEADLOCK FALSE
