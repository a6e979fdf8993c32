SPECIFICATION Spec
CONSTANTS MaxOps = 9
INVARIANTS ReadsLast Closed
PROPERTIES OneFile Noticed KeepsRest
CHECK_DEADLOCK FALSE
