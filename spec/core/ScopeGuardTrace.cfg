SPECIFICATION TSpec
CONSTANTS Slots = {1, 2, 3, 4}
          Actions = {1}
INVARIANTS OwnedOnce RunOnce NoneLost
CHECK_DEADLOCK FALSE
