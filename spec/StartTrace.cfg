SPECIFICATION Spec
INVARIANTS OK Spread 
ALIAS Al
CHECK_DEADLOCK FALSE
