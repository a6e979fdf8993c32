SPECIFICATION Live
CONSTANTS Ths = {0,1}
 Which = "any"
 MaxCalls = 5
 ThreadIds <- AllThs
 MaxTime = 0
INVARIANTS KeepsType OnlyWhileSetUp UsableWhenSetUp ActionsBalanced EachNotifiedOnce Balanced NeverHalf InTimeMC WaitSays WaitFailsLate
PROPERTIES RefusedChangesNothing ChangeIsNotified TickSaysTrue TickNotEarly CtlReturns Answered
CHECK_DEADLOCK FALSE
