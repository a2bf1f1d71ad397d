SPECIFICATION Spec
INVARIANTS Ordered Conserved MissingOnlyIfAll Again Weighted
CHECK_DEADLOCK FALSE
