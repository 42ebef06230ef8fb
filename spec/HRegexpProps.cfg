SPECIFICATION Spec
CONSTANTS
  EL = 3
  TL = 3
INVARIANTS Inv
CHECK_DEADLOCK FALSE
