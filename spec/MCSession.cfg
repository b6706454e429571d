SPECIFICATION MSpec
CONSTANTS
  MaxRuns <- Runs
  Palette <- Next1
CONSTRAINT Stop
INVARIANTS Placement Complete Confluent Continues Gapless Emit
PROPERTY Untouched
CHECK_DEADLOCK FALSE
