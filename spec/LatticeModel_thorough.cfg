SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxEdges = 2
  MaxOps = 5
  MaxLoose = 1
  MaxParts = 3
  Cats = {"T"}
  Corr = FALSE
  Emit = FALSE
VIEW View
INVARIANTS DocumentOK IndexExact
PROPERTIES NothingLost RefusedChangesNothing
CHECK_DEADLOCK FALSE
