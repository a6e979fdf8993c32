SPECIFICATION MSpec
CONSTANTS Threads = {1, 2}
          NoThread = none
          MaxCalls = 4
INVARIANTS OneEvent NoRunAfterRemoval NoDuplicates
CHECK_DEADLOCK FALSE
