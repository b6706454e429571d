SPECIFICATION GSpec
INVARIANTS OwnHeight KeepsSums Between Bridges EveryRowOnce
CHECK_DEADLOCK FALSE
