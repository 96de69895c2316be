INIT HInit
NEXT HNext
CHECK_DEADLOCK FALSE
INVARIANT Exact
CONSTANTS
  AptWindow = 4
  RctCut <- Cut_Rct
  RctCutP <- Cut_RctP
  AptCut <- Cut_Apt
  AptCutP <- Cut_AptP
  LagGlob <- Cut_LagG
  LagGlobP <- Cut_LagGP
  LagLoc <- Cut_LagL
  LagLocP <- Cut_LagLP
  RmCut <- Cut_Rm
  RmCutP <- Cut_RmP
