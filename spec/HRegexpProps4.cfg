SPECIFICATION Spec
CONSTANTS
  EL = 4
  TL = 3
INVARIANTS Inv
CHECK_DEADLOCK FALSE
