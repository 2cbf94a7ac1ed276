SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Kind = "anti"
  MaxEdges = 2
  Emit = TRUE

INVARIANTS Printed
CHECK_DEADLOCK FALSE
