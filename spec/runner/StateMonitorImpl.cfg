SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
  NoThread = none
  Reporter = 1
  Reports = {0, 1, 4}
  NotifyAll = TRUE
  MaxCalls = 5
PROPERTIES Refines NoWaiterForgotten
CHECK_DEADLOCK FALSE
