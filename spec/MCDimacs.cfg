SPECIFICATION Spec
CONSTANTS Alphabet = {32, 10, 45, 49, 50, 48}  MaxLen = 6  Block = 4
INVARIANT Exact
CHECK_DEADLOCK FALSE
