SPECIFICATION Safe
CONSTANTS MainThread = 0
 Ctls = {A, B}
 MaxCmds = 4
 Which = "leaf"
 Cmds = {"start", "step", "pause", "reset", "halt"}
INVARIANTS FinalState StepOne NoVainStop View Gone
PROPERTIES Path OnlyActive StepDone Armed Kept Fresh
CHECK_DEADLOCK FALSE
