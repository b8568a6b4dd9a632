SPECIFICATION Spec
CONSTANTS
  Rounds = 4
  Kinds = {"crunch", "unity"}
INVARIANTS Meant Broken TypeOK Sizes
PROPERTY Terminates
CHECK_DEADLOCK FALSE
