SPECIFICATION Spec
INVARIANT Accepted
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
