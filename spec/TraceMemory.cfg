SPECIFICATION Spec
INVARIANTS Frugal GivenBack
CHECK_DEADLOCK FALSE
