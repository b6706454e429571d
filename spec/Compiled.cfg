SPECIFICATION Spec
INVARIANTS AsConfigured Emit
CHECK_DEADLOCK FALSE
