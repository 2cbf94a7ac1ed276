SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Kind = "join"
  MaxEdges = 5
  Emit = FALSE
VIEW View
INVARIANTS KeepsAll SelectOK AntiOK JoinOK Again
CHECK_DEADLOCK FALSE
