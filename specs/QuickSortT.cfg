SPECIFICATION Spec
CONSTANTS N = 6
 K = 3
 Guard = TRUE
INVARIANT InRange Sorted
PROPERTY Ends
CHECK_DEADLOCK FALSE
