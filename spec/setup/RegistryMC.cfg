SPECIFICATION Spec
CONSTANTS
  Kinds = {"a", "b"}
  Makers = {"T1", "T2"}
INVARIANT Right
PROPERTY Stable
CHECK_DEADLOCK FALSE
