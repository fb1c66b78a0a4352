INIT Init
NEXT Next
CONSTANTS
  Count = 60
  MaxN = 7
INVARIANT Agree
CHECK_DEADLOCK FALSE
