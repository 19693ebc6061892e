SPECIFICATION Spec
CONSTANTS N = 4
 K = 3
 Guard = FALSE
INVARIANT InRange Sorted
CHECK_DEADLOCK FALSE
