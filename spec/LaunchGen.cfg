SPECIFICATION GSpec
INVARIANTS Owned Continues
PROPERTIES Local
CHECK_DEADLOCK FALSE
