SPECIFICATION Spec
CONSTANTS M = 4
 L = 3
 Carry = FALSE
INVARIANT InUnit StateOk
CHECK_DEADLOCK FALSE
