SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS ReadsLast Closed
PROPERTIES OneFile Noticed KeepsRest
CHECK_DEADLOCK FALSE
