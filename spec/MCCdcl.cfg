SPECIFICATION Spec
CONSTANTS
  NV = 2
  MaxClauses = 4
  MaxLearnt = 2
CONSTRAINT Bound
INVARIANT Inv
CHECK_DEADLOCK FALSE
