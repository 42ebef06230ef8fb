SPECIFICATION Spec
CONSTANTS
  Bytes = {97, 32, 10, 92, 34, 35, 36, 42, 40, 41, 123, 125, 91, 93, 59}
  Max = 4
INVARIANT Invertible
CHECK_DEADLOCK FALSE
