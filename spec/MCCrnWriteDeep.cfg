SPECIFICATION Spec
CONSTANTS
  Rounds = 60
  Kinds = {"crunch", "unity"}
INVARIANTS Meant Broken TypeOK Sizes
PROPERTY Terminates
CHECK_DEADLOCK FALSE
