SPECIFICATION Live
CONSTANTS Ths = {0,1}
 Which = "equal"
 MaxCalls = 4
 ThreadIds <- AllThs
 MaxTime = 4
INVARIANTS KeepsType OnlyWhileSetUp UsableWhenSetUp ActionsBalanced EachNotifiedOnce Balanced NeverHalf InTimeMC WaitSays WaitFailsLate
PROPERTIES RefusedChangesNothing ChangeIsNotified TickSaysTrue TickNotEarly CtlReturns Answered
CHECK_DEADLOCK FALSE
