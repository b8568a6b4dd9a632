SPECIFICATION Spec
INVARIANT Conforms TypeOK Sizes AsMeant
VIEW View
CHECK_DEADLOCK FALSE
