SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxArgs = 2
  Alphabet = {45, 61, 97, 110, 46, 53}
INVARIANTS InRange OneAtATime Stops FilesOnly
CHECK_DEADLOCK FALSE
