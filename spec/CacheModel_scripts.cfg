SPECIFICATION Spec
CONSTANTS
  Paths = {"/x", "/y"}
  MaxOps = 5
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
