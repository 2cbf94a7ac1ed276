SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Nothing = "0"
  MaxOps = 3
  Tags = {{"t"}}
  Scores = {0}
  Sym = FALSE
  Escaped = FALSE
  Late = FALSE
  Emit = FALSE
VIEW View
INVARIANTS Sense Faithful Renamed
CHECK_DEADLOCK FALSE
