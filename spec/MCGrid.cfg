SPECIFICATION Spec
INVARIANTS Promises
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
