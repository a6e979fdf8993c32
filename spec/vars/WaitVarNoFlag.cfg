SPECIFICATION Spec
CONSTANTS Writers = {A, B}
 MaxWrites = 4
 Flag = FALSE
 Inside = FALSE
INVARIANTS Says SaysNo NotForgotten
PROPERTIES Ends
CHECK_DEADLOCK TRUE
