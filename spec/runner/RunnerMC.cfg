SPECIFICATION Spec
CONSTANTS MainThread = 0
 MaxOps = 3
 MaxAsks = 1
 MaxBps = 1
 Big = FALSE
INVARIANTS Callbacks StopsSoon Respects CurTrue Unique Nothing
PROPERTIES Reasons NoneAfterEnd HaltEnds Single Released Rearmed 
CHECK_DEADLOCK FALSE
