SPECIFICATION Spec
CONSTANT Max = 5
INVARIANTS Written Emitted
CHECK_DEADLOCK FALSE
