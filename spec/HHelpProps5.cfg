SPECIFICATION Spec
CONSTANTS
  MaxArgs = 5
  MaxWords = 10
  BlkTab <- PBlk
  ProgTab <- PProg
  FileTab <- PFile
  EvTab <- PEv
  MainTab <- PMain
  Agrees <- PAgrees
INVARIANT ArityIsSignature
INVARIANT HelpAcceptsPrefixes
INVARIANT SameText
CHECK_DEADLOCK FALSE
