SPECIFICATION Spec
CONSTANTS
  MaxArgs = 3
  MaxWords = 7
  BlkTab <- PBlk
  ProgTab <- PProg
  FileTab <- PFile
  EvTab <- PEv
  MainTab <- PMain
  Agrees <- PAgrees
INVARIANT ArityIsSignature
INVARIANT HelpAcceptsPrefixes
INVARIANT SameText
CHECK_DEADLOCK FALSE
