INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Add64 <- M_Add64
  Sub64 <- M_Sub64
  Lt64 <- M_Lt64
  Div64 <- M_Div64
  Gcd64 <- M_Gcd64
  AbsDiff64 <- M_AbsDiff64
  AptWindow = 1
  LagWindow = 2
  LagHist = 1
  AptCut <- M_Cut
  AptCutP <- M_Cut
  RctCut <- M_Cut
  RctCutP <- M_Cut
  RmCut <- M_Cut
  RmCutP <- M_Cut
  LagGlob <- M_Lag
  LagGlobP <- M_Lag
  LagLoc <- M_Lag
  LagLocP <- M_Lag
  Insert <- M_Insert
  Carry <- M_Carry
  Ids <- MIds
  MinOsr = 1
  MaxOsr = 2
  WarmUp = 0
  TestLoops = 2
  StuckMax = 1
  BackMax = 1
  BlockBits = 1
  SafetyBits = 1
  RecLoops = 1
  BlockBytes = 1
  StirReads = 0
  GcdTooBig <- M_GcdTooBig
  VarTooSmall <- M_VarTooSmall
  Read <- M_Read
  TrackMem = FALSE
  TrackPool = FALSE
  Wrap = 8
