SPECIFICATION TSpec
CONSTANT MainThread = 0
CHECK_DEADLOCK FALSE
