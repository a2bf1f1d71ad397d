SPECIFICATION Spec
CONSTANTS
  Max = 4
  Top = 4
INVARIANTS Emitted Sound
CHECK_DEADLOCK FALSE
