SPECIFICATION Spec
INVARIANTS Same Emitted
CHECK_DEADLOCK FALSE
