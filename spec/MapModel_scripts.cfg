SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y", "!translation"}
  MaxEdges = 2
  Emit = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
