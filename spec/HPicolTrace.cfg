SPECIFICATION Spec
CONSTANTS
  BlkTab <- TBlk
  ProgTab <- TProg

  EvTab <- TEv
  MainTab <- TMain
INVARIANTS Report ScopesOk
PROPERTY Grow
CHECK_DEADLOCK FALSE
