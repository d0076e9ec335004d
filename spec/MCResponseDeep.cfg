SPECIFICATION MSpec
CONSTANTS
  ShW <- SymShW
  ShF <- SymShF
  Prj <- SymPrj
  Z0 = 0
  Acts = {"WriteFile","RemoveFile","Load","NewSed","SetZ","ProjectSed","NewRsp","RspDat","SaveRsp","RspFits","ProjectRsp","SaveSed","Restart"}
  Names = {"n1","n2"}
  Contents = {"B3","bad"}
  SedHs = {"s1","s2"}
  KcHs = {"k1","k2"}
  Paths = {"f1"}
  Zs = {0,1}
  Cfgs <- CfgSmall
  Depth = 7
CONSTRAINT Bound
INVARIANTS InvFrames InvMapped InvFilesAtRest InvSame
PROPERTIES RestFixed BuiltRight ComputedRight FittersFixed Restored SedRestored Registry1 Registry2 Registry3 Reloads NoClobber Written RspRestored Frames Failures
VIEW mvars
CHECK_DEADLOCK FALSE
