SPECIFICATION Spec
INVARIANTS Owned Continues Apart
PROPERTIES Local
CHECK_DEADLOCK FALSE
