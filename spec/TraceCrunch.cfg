SPECIFICATION Spec
INVARIANT Conforms TypeOK Sizes
VIEW View
CHECK_DEADLOCK FALSE
