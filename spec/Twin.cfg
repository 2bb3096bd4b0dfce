SPECIFICATION Spec
INVARIANT OK
CHECK_DEADLOCK FALSE
