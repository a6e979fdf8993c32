SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  NoThread = none
  UsedCmd = {0, 4, 5}
  UsedOps = {"push", "prio", "wait", "pop"}
  MaxCalls = 4
INVARIANTS TypeOK Mutual Conservation
PROPERTIES Refines NoLostWakeup
CHECK_DEADLOCK FALSE
