SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxBB = 1
INVARIANTS ExactInv GuardInv FinallyOff
CHECK_DEADLOCK FALSE
