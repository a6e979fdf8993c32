SPECIFICATION Live
CONSTANTS MainThread = 0
 Ctls = {A}
 MaxCmds = 3
 Which = "leaf"
 Cmds = {"start", "halt", "reset"}
PROPERTIES HaltEnds CallsReturn Destroyed
INVARIANTS Gone
CHECK_DEADLOCK FALSE
