SPECIFICATION Spec
CONSTANTS MainThread = 0
 MaxOps = 2
 MaxAsks = 1
 MaxBps = 1
 Big = FALSE
INVARIANTS Callbacks StopsSoon Respects CurTrue Unique Nothing
PROPERTIES Reasons NoneAfterEnd HaltEnds Single Released Rearmed Stops Asks
CHECK_DEADLOCK FALSE
