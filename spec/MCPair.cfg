SPECIFICATION PSpec
CONSTANTS
  Lt <- MCLt
  Dist <- MCDist
  Times <- MCTimes
  Mid <- MCMid
  Rank <- MCRank
  Median <- MCMedian
  Invalid <- MCInvalid
  HistoryCap = 3
  StagDiv = 1
  StagShare <- MCStagShareSmall
  Cfgs <- CfgsPair
  Alphabets <- AlphaPair
  Increasing <- IncreasingMaps
  Ops <- StepOps
  Depth = 3
  MaxRun = 0
  ParallelAbort = FALSE
  EmitTo = ""
INVARIANTS SameByMode SameByOrder
CHECK_DEADLOCK FALSE
