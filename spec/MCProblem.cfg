SPECIFICATION Spec
CONSTANTS V = 2
          MaxClauses = 3
INVARIANTS SameDegrees TextIdentifies SameAnswer WellFormed GapLess
CHECK_DEADLOCK FALSE
