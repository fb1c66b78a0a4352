SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Lambdas = {2, 3, 4}
  Budgets <- MCBudgets
  MaxRounds = 4
  OutFile = "sampling.nd"
INVARIANTS
  Population
  InOrder
  Respected
  OnlyForced
  NothingLost
  Once
  Tested
  NoBudget
  Emitted
