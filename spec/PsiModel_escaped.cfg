SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Nothing = "0"
  MaxOps = 2
  Tags = {{"t"}}
  Scores = {0}
  Sym = TRUE
  Escaped = TRUE
  Late = FALSE
  Emit = FALSE
VIEW View
INVARIANTS Sense Faithful
CHECK_DEADLOCK FALSE
