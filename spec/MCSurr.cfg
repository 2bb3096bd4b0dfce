SPECIFICATION Spec
INVARIANTS NeverUntrained Bounded Recent Off Out
CHECK_DEADLOCK FALSE
