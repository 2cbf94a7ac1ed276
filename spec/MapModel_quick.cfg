SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y", "!translation"}
  MaxEdges = 2
  Emit = FALSE
VIEW View
INVARIANTS KeepsAll Every Only Unfound Again
CHECK_DEADLOCK FALSE
