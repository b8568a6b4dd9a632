SPECIFICATION Spec
CONSTANTS
  Guard = TRUE
  Sides = {0, 1, 5, 64, 1000, 16384, 65535}
  Faces = {0, 1, 6, 255}
  Entries = {0, 1, 300, 65535}
  Lengths = {0, 73, 74, 75, 400, 1090, 5000, 100000}
INVARIANTS Bounded GivesBack
CHECK_DEADLOCK FALSE
