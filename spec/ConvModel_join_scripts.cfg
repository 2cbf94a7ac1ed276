SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Kind = "join"
  MaxEdges = 3
  Emit = TRUE

INVARIANTS Printed
CHECK_DEADLOCK FALSE
