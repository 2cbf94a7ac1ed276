SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Nothing = "0"
  MaxOps = 3
  Tags = {{"t"}}
  Scores = {0}
  Sym = TRUE
  Escaped = FALSE
  Late = TRUE
  Emit = FALSE
VIEW View
INVARIANTS Sense Faithful
CHECK_DEADLOCK FALSE
