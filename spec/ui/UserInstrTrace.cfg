SPECIFICATION TSpec
CONSTANTS Halters = {1, 2}
INVARIANTS UTypeOK OnlyChosen SuccessNeedsAnswer
CHECK_DEADLOCK FALSE
