SPECIFICATION GSpec
INVARIANTS Level Units Diffuse Limits Noon
CHECK_DEADLOCK FALSE
