SPECIFICATION Safe
CONSTANTS MainThread = 0
 Ctls = {A}
 MaxCmds = 3
 Which = "plain"
 Cmds = {"start", "step"}
INVARIANTS FinalState StepOne NoVainStop View Gone
PROPERTIES Path OnlyActive StepDone Armed Kept Fresh
CHECK_DEADLOCK FALSE
