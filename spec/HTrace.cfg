SPECIFICATION Spec
CONSTANTS
  BlkTab <- TBlk
  ProgTab <- TProg
  FileTab <- TFile
  EvTab <- TEv
  MainTab <- TMain
  Agrees <- TAgrees
INVARIANT Report
CHECK_DEADLOCK FALSE
