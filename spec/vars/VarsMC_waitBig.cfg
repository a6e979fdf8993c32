SPECIFICATION Live
CONSTANTS Ths = {0,1}
 Which = "wait"
 MaxCalls = 4
 ThreadIds <- AllThs
 MaxTime = 4
INVARIANTS KeepsType OnlyWhileSetUp UsableWhenSetUp ActionsBalanced EachNotifiedOnce Balanced NeverHalf InTimeMC WaitSays WaitFailsLate
PROPERTIES RefusedChangesNothing ChangeIsNotified TickSaysTrue TickNotEarly CtlReturns Answered WaitEnds
CHECK_DEADLOCK FALSE
