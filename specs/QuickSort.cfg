SPECIFICATION Spec
CONSTANTS N = 5
 K = 3
 Guard = TRUE
INVARIANT InRange Sorted
PROPERTY Ends
CHECK_DEADLOCK FALSE
