SPECIFICATION GSpec
INVARIANTS KeepsMean NoShift Grows SlopeLevel
CHECK_DEADLOCK FALSE
