SPECIFICATION Spec
CONSTANTS
  Rounds = 2
  MaxPiece = 7
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
