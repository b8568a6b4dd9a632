SPECIFICATION Spec
INVARIANTS Shallow
CHECK_DEADLOCK FALSE
