SPECIFICATION Spec
INVARIANTS InvState
PROPERTY Ends_
CHECK_DEADLOCK FALSE
CONSTANTS
  BetterValue <- BetterInt
  MaxIpopRuns = 10
  Cfgs <- CfgsLong
  Gens <- GensLong
  Values <- ValueOne
  Ends <- EndsTol
  Depth = 1000
  Track = FALSE
  OutFile = ""
