SPECIFICATION GSpec
INVARIANTS OnCell DateLine
CHECK_DEADLOCK FALSE
