SPECIFICATION Safe
CONSTANTS Ths = {0,1}
 Which = "equal"
 MaxCalls = 3
 ThreadIds <- AllThs
 MaxTime = 2
INVARIANTS KeepsType OnlyWhileSetUp UsableWhenSetUp ActionsBalanced EachNotifiedOnce Balanced NeverHalf InTimeMC WaitSays WaitFailsLate
PROPERTIES RefusedChangesNothing ChangeIsNotified TickSaysTrue TickNotEarly
CHECK_DEADLOCK FALSE
