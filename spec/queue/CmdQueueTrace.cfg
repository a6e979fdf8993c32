SPECIFICATION TSpec
CONSTANTS Threads = {0, 1, 2, 3, 4}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
