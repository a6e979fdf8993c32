SPECIFICATION TSpec
CONSTANT Slots = {0, 1, 2}
PROPERTY Grows
CHECK_DEADLOCK FALSE
