SPECIFICATION Spec
INVARIANTS Consent Complete OwnSafe Agrees
CHECK_DEADLOCK FALSE
