SPECIFICATION Spec
CONSTANTS Names = {"x", "y"}
          EMIT = TRUE
INVARIANTS TypeOK Laws
CHECK_DEADLOCK FALSE
