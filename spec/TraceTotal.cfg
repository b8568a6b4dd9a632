SPECIFICATION Spec
INVARIANT Total
CHECK_DEADLOCK FALSE
