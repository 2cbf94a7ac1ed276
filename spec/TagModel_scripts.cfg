SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxColl = 4
  MaxMask = 2
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
