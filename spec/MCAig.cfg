SPECIFICATION Spec
CONSTANTS NV = 3 MaxClauses = 3 MaxLen = 3
INVARIANTS CircuitOk
CHECK_DEADLOCK FALSE
