SPECIFICATION Spec
CONSTANTS MainThread = 0
 MaxOps = 5
 MaxAsks = 2
 MaxBps = 1
 Big = TRUE
INVARIANTS Callbacks StopsSoon Respects CurTrue Unique Nothing
PROPERTIES Reasons NoneAfterEnd HaltEnds Single Released Rearmed 
CHECK_DEADLOCK FALSE
