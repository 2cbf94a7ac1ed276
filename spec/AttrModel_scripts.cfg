SPECIFICATION Spec
CONSTANTS
  Names = {"A", "B", "C"}
  Values <- ModelValues
  MaxItems = 3
  MaxOps = 3
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
