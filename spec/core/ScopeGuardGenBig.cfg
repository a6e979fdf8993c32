SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
          Actions = {1, 2, 3}
INVARIANTS OwnedOnce RunOnce NoneLost
CHECK_DEADLOCK FALSE
