SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
  Main = 0
  NotifyAll = TRUE
  MaxRequests = 4
INVARIANTS TypeOK OnePlace NoReplyOfDropped
PROPERTIES Refines Answered NeverBlocked ShutEnds
CHECK_DEADLOCK FALSE
