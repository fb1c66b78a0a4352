SPECIFICATION Spec

CONSTANTS
  Lt <- FLt
  Dist <- TDist
  Times <- FMul
  Mid <- TMid
  Rank <- FRank
  Median <- FMedian
  Invalid <- FIsNaN
  HistoryCap = 20000
  StagDiv = 5
  StagShare <- TShare
