SPECIFICATION TSpec
INVARIANTS KeepsType OnlyWhileSetUp UsableWhenSetUp ActionsBalanced
CHECK_DEADLOCK FALSE
