SPECIFICATION Spec
CONSTANT NL = 5
INVARIANT Exact
INVARIANT Lowest
CHECK_DEADLOCK FALSE
