SPECIFICATION Spec
CONSTANTS MaxOps = 3
INVARIANTS ValidIsAcceptable OrderIrrelevant NoDuplicates KeepsNames Laws ValidResolves
CHECK_DEADLOCK FALSE
