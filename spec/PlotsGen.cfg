SPECIFICATION GSpec
INVARIANTS MeanBetween Stacked Distinct
CHECK_DEADLOCK FALSE
