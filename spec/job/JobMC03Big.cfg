SPECIFICATION Live
CONSTANTS MainThread = 0
 Ctls = {A, B}
 MaxCmds = 3
 Which = "plain"
 Cmds = {"start", "halt", "reset"}
PROPERTIES HaltEnds CallsReturn Destroyed
INVARIANTS Gone
CHECK_DEADLOCK FALSE
