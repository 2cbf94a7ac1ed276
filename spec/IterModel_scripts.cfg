SPECIFICATION Spec
CONSTANTS
  MaxEdges = 2
  Emit = TRUE
  Rich = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
