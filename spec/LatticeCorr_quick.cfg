SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxEdges = 8
  MaxOps = 5
  MaxLoose = 4
  MaxParts = 9
  Cats = {}
  Corr = TRUE
  Emit = FALSE
VIEW View
INVARIANTS DocumentOK IndexExact
PROPERTIES NothingLost StillReadable RefusedChangesNothing
CHECK_DEADLOCK FALSE
