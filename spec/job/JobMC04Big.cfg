SPECIFICATION Safe
CONSTANTS MainThread = 0
 Ctls = {A}
 MaxCmds = 4
 Which = "plain"
 Cmds = {"start", "step", "pause"}
INVARIANTS FinalState StepOne NoVainStop View Gone
PROPERTIES Path OnlyActive StepDone Armed Kept Fresh
CHECK_DEADLOCK FALSE
