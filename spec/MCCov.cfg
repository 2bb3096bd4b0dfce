SPECIFICATION Spec
INVARIANTS ConstantsAdmissible Valid
PROPERTIES Shift
CHECK_DEADLOCK FALSE
