SPECIFICATION Spec
CONSTANTS Slots = {1, 2}
          Actions = {1, 2}
INVARIANTS OwnedOnce RunOnce NoneLost
CHECK_DEADLOCK FALSE
