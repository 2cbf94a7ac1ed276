SPECIFICATION Spec
CONSTANTS
  MaxFields = 1
  MaxLen = 3
  Emit = FALSE
INVARIANT ReadBack
CHECK_DEADLOCK FALSE
