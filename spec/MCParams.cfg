SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 16
  MaxLambda = 24
INVARIANTS
  WeightsShape
  Mass
  Rates
  Decay
  Defaults
