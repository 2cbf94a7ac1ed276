SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxEdges = 2
  MaxOps = 3
  MaxLoose = 1
  MaxParts = 3
  Cats = {"T"}
  Corr = FALSE
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
