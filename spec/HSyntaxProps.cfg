SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {97, 32, 10, 92, 35, 34, 36, 40, 41, 123, 125, 91}
INVARIANT Cover
INVARIANT IncompleteMeansCompletable
PROPERTY TokensStable
PROPERTY ErrorsStay
CHECK_DEADLOCK FALSE
