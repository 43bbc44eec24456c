SPECIFICATION Spec
CONSTANTS V = {1, 2}  MaxClauses = 3  MaxSolves = 2  CheckAnswers = TRUE CheckCore = TRUE CheckLearn = TRUE CheckTerm = TRUE
INVARIANTS DpllExact ModelSound Monotone CoreStays AssumptionsExpire CoreSound
CHECK_DEADLOCK FALSE
