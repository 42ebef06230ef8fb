SPECIFICATION Spec
CONSTANTS
  BlkTab <- TBlk
  ProgTab <- TProg
  FileTab <- TFile
  EvTab <- TEv
  MainTab <- TMain
  Agrees <- Shows
INVARIANTS Judged Waits
CHECK_DEADLOCK FALSE
