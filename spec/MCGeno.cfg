SPECIFICATION Spec
INVARIANTS PhenoFeasible RoundTrip Principal NoStretch Periodic Identity Order
CHECK_DEADLOCK FALSE
