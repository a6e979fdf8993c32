SPECIFICATION Spec
CONSTANTS MaxOps = 2
INVARIANTS FailNothing OnlyTarget TypesKept  CopyCopies
CHECK_DEADLOCK FALSE
