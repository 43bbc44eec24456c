SPECIFICATION Spec
CONSTANTS NV = 2 MaxClauses = 5 MaxLen = 2
INVARIANTS Structure FunctionOk FunctionInContext LeanOk
CHECK_DEADLOCK FALSE
