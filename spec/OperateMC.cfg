SPECIFICATION Spec
CONSTANTS
  N = 4
  P = {1, 4}
INVARIANTS Tiled Partition Feasible Foresight Whole Finishes
CHECK_DEADLOCK FALSE
