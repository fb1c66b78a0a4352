SPECIFICATION Spec
CONSTANTS
  Lt <- MCLt
  Dist <- MCDist
  Times <- MCTimes
  Mid <- MCMid
  Rank <- MCRank
  Median <- MCMedian
  Invalid <- MCInvalid
  HistoryCap = 4
  StagDiv = 1
  StagShare <- MCStagShareSmall
  Cfgs <- CfgsStag
  Alphabets <- AlphaStag
  Ops <- StepOps
  Depth = 6
  MaxRun = 0
  ParallelAbort = FALSE
  EmitTo = ""
INVARIANTS BestExact CountsExact ReasonsExact HistoriesBounded RunBudget PlotExact LinesExact EmitBehaviour
PROPERTY AbortKeepsState
CHECK_DEADLOCK FALSE
