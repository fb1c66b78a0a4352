SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 2
  OutFile = "options.nd"
  Rich = FALSE
INVARIANTS
  LastCounts
  Commute
  Emitted
