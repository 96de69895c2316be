INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  AptWindow = 512
  LagWindow = 131072
  LagHist = 8
  RctCut <- R_RctCut
  RctCutP <- R_RctCutP
  AptCut <- R_AptCut
  AptCutP <- R_AptCutP
  LagGlob <- R_LagGlob
  LagGlobP <- R_LagGlobP
  LagLoc <- R_LagLoc
  LagLocP <- R_LagLocP
  RmCut <- R_RmCut
  RmCutP <- R_RmCutP
  Ids <- T_Ids
  SlotIds <- T_SlotIds
  MinOsr = 3
  MaxOsr = 20
  WarmUp = 100
  TestLoops = 1024
  StuckMax = 921
  BackMax = 3
  BlockBits = 256
  SafetyBits = 65
  RecLoops = 10
  BlockBytes = 32
  StirReads = 16
  GcdTooBig <- R_GcdTooBig
  VarTooSmall <- R_VarTooSmall
  Read <- T_Read
  TrackMem = TRUE
  TrackPool = FALSE
  NextL <- T_NextL
