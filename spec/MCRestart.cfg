SPECIFICATION Spec
INVARIANTS Inv Emitted
PROPERTY Ends_
CHECK_DEADLOCK FALSE
CONSTANTS
  BetterValue <- BetterInt
  MaxIpopRuns = 10
  Cfgs <- CfgsLocal
  Gens <- GensPlan
  Values <- ValuesAll
  Ends <- EndsAll
  Depth = 3
  Track = TRUE
  OutFile = ""
