SPECIFICATION Spec
CONSTANT Max = 5
INVARIANTS Emitted BuiltBeforeSolved
CHECK_DEADLOCK FALSE
