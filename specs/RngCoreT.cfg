SPECIFICATION Spec
CONSTANTS M = 8
 L = 3
 Carry = TRUE
INVARIANT InUnit StateOk
CHECK_DEADLOCK FALSE
