SPECIFICATION Spec
CONSTANTS N = 2 MaxLbd = 3 MaxConf = 4
INVARIANTS Spaced SumOk
PROPERTIES Kept NotAll
CHECK_DEADLOCK FALSE
