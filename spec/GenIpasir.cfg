SPECIFICATION GSpec
CONSTANTS NV = 5 MaxLen = 3 Depth = 30 CheckAnswers = FALSE CheckCore = FALSE CheckLearn = FALSE CheckTerm = FALSE
CHECK_DEADLOCK FALSE
