SPECIFICATION Spec
CONSTANTS N = 3 Budget = 1
INVARIANTS NoneLost CanDraw SatIsTotal Budgeted OnceEach
CHECK_DEADLOCK FALSE
