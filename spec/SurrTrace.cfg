SPECIFICATION Spec
INVARIANT OK
ALIAS Al
CHECK_DEADLOCK FALSE
