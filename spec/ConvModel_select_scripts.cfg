SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Kind = "select"
  MaxEdges = 3
  Emit = TRUE

INVARIANTS Printed
CHECK_DEADLOCK FALSE
