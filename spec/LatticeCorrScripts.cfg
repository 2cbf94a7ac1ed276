SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxEdges = 8
  MaxOps = 4
  MaxLoose = 4
  MaxParts = 9
  Cats = {}
  Corr = TRUE
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
