SPECIFICATION Spec
CONSTANTS
  MaxFields = 1
  MaxLen = 3
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
