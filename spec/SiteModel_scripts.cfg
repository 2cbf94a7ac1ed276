SPECIFICATION Spec
CONSTANTS
  MaxPieces = 4
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
