SPECIFICATION GSpec
CONSTANTS
  MaxRuns <- Runs
  Palette <- NoPalette
INVARIANTS Placement Complete Continues Gapless Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
