SPECIFICATION Spec
CONSTANTS NI = 2 NG = 3 Cap = 1
INVARIANTS Walked Prefix Counted
CHECK_DEADLOCK FALSE
