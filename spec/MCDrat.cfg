SPECIFICATION Spec
CONSTANTS V = {1, 2}  MaxInit = 3  MaxDb = 5
INVARIANTS RefutationSound SatPreserved RupImplied
CHECK_DEADLOCK FALSE
