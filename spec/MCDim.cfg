SPECIFICATION Spec
INVARIANTS Kept Once SetRemoval
CHECK_DEADLOCK FALSE
