SPECIFICATION Spec
CONSTANTS
  MaxPieces = 5
  Emit = FALSE
INVARIANTS Contained Right Complete Escapes
CHECK_DEADLOCK FALSE
