SPECIFICATION TSpec
CONSTANTS Threads = {0, 1, 2, 3, 4, 5}
INVARIANTS TypeOK OnePlace
CHECK_DEADLOCK FALSE
