SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxEdges = 3
  MaxOps = 6
  MaxLoose = 1
  MaxParts = 5
  Cats = {"T"}
  Corr = FALSE
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
