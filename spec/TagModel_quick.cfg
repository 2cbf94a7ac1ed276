SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxColl = 4
  MaxMask = 2
  Emit = FALSE
VIEW View
INVARIANT Faithful
CHECK_DEADLOCK FALSE
