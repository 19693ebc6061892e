SPECIFICATION Spec
CONSTANT Full = TRUE
CHECK_DEADLOCK FALSE
