SPECIFICATION Spec
CONSTANTS Mode = "content"
 MaxNodes = 4
 Small = TRUE
 Files = {}
INVARIANTS RoundTrip Anywhere RootRight Description Valued
CHECK_DEADLOCK FALSE
