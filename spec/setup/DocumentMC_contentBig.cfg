SPECIFICATION Spec
CONSTANTS Mode = "content"
 MaxNodes = 5
 Small = FALSE
 Files = {}
INVARIANTS RoundTrip Anywhere RootRight Description Valued
CHECK_DEADLOCK FALSE
