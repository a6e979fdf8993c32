SPECIFICATION Spec
CONSTANTS MaxOps = 2
INVARIANTS ValidIsAcceptable OrderIrrelevant NoDuplicates KeepsNames Laws ValidResolves
CHECK_DEADLOCK FALSE
