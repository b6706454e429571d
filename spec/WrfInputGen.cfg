SPECIFICATION GSpec
INVARIANTS AddsUp Humid
CHECK_DEADLOCK FALSE
