SPECIFICATION Spec
CONSTANT Full = FALSE
CHECK_DEADLOCK FALSE
