SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Alive Derived OnlyTracked Best NoSlack
PROPERTY Monotone
CHECK_DEADLOCK FALSE
