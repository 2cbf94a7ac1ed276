SPECIFICATION Spec
CONSTANTS
  MaxFields = 2
  MaxLen = 2
  Emit = FALSE
INVARIANT ReadBack
CHECK_DEADLOCK FALSE
