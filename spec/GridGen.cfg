SPECIFICATION GSpec
INVARIANTS Promises
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
