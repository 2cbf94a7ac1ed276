SPECIFICATION Spec
CONSTANTS
  MaxPieces = 4
  Emit = FALSE
INVARIANTS Contained Right Complete Escapes
CHECK_DEADLOCK FALSE
