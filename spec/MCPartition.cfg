SPECIFICATION Spec
CONSTANTS
  NV = 3
  MaxRounds = 3
INVARIANTS ExactBackbones ExactEquivalences
CHECK_DEADLOCK FALSE
