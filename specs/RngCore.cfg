SPECIFICATION Spec
CONSTANTS M = 4
 L = 3
 Carry = TRUE
INVARIANT InUnit StateOk
CHECK_DEADLOCK FALSE
