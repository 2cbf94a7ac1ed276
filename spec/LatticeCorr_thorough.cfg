SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxEdges = 8
  MaxOps = 6
  MaxLoose = 4
  MaxParts = 9
  Cats = {}
  Corr = TRUE
  Emit = FALSE
VIEW View
INVARIANTS DocumentOK IndexExact
PROPERTIES NothingLost StillReadable RefusedChangesNothing
CHECK_DEADLOCK FALSE
