SPECIFICATION Spec
CONSTANTS Mode = "include"
 MaxNodes = 4
 Small = TRUE
 Files = {"f"}
INVARIANTS RoundTrip RootRight IncludeInPlace Description
CHECK_DEADLOCK FALSE
