SPECIFICATION HSpec
CONSTANTS
 Procs <- MProcs
 Cells <- MCells
 Starts <- MStarts
 Lengths <- MLengths
 Depth <- MDepth
INVARIANTS FunctionOfInputs Untouched Emit
CHECK_DEADLOCK FALSE
