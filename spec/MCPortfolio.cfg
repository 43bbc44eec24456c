SPECIFICATION Spec
CONSTANTS
  W = 3
  MayInterrupt = TRUE
INVARIANTS Right Quiet PublishedPair
PROPERTY Terminates
CHECK_DEADLOCK FALSE
