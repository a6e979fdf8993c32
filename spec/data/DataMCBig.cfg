SPECIFICATION Spec
CONSTANTS MaxOps = 3
INVARIANTS FailNothing OnlyTarget TypesKept  CopyCopies
CHECK_DEADLOCK FALSE
