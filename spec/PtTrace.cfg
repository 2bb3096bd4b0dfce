SPECIFICATION Spec
INVARIANTS OK Complete
ALIAS Al
CHECK_DEADLOCK FALSE
