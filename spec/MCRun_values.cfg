SPECIFICATION Spec
CONSTANTS
  Lt <- MCLt
  Dist <- MCDist
  Times <- MCTimes
  Mid <- MCMid
  Rank <- MCRank
  Median <- MCMedian
  Invalid <- MCInvalid
  HistoryCap = 3
  StagDiv = 5
  StagShare <- MCStagShareSmall
  Cfgs <- CfgsValues
  Alphabets <- AlphaValues
  Ops <- StepOps
  Depth = 3
  MaxRun = 0
  ParallelAbort = FALSE
  EmitTo = ""
INVARIANTS BestExact CountsExact ReasonsExact HistoriesBounded RunBudget PlotExact LinesExact EmitBehaviour
PROPERTY AbortKeepsState
CHECK_DEADLOCK FALSE
