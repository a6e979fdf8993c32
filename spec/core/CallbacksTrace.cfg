SPECIFICATION TSpec
CONSTANTS Threads = {0, 1, 2, 3}
          NoThread = none
INVARIANT OneEvent
CHECK_DEADLOCK FALSE
