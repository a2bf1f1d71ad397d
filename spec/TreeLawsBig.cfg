CONSTANT Big = TRUE
SPECIFICATION Spec
INVARIANTS Shape UpperWins LowerKept NullKeeps NoInvent Idempotent Compose CommuteFree TwoPass
CHECK_DEADLOCK FALSE
