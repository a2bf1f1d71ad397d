SPECIFICATION Spec
INVARIANTS ExactlyOnce NamesDiffer Emitted
CHECK_DEADLOCK FALSE
