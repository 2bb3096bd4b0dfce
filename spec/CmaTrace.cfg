SPECIFICATION Spec
INVARIANTS OK Done
ALIAS Al
CHECK_DEADLOCK FALSE
