SPECIFICATION Spec
INVARIANTS OK
ALIAS Al
CHECK_DEADLOCK FALSE
