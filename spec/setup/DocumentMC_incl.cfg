SPECIFICATION Spec
CONSTANTS Mode = "include"
 MaxNodes = 3
 Small = FALSE
 Files = {"f"}
INVARIANTS RoundTrip RootRight IncludeInPlace Description
CHECK_DEADLOCK FALSE
