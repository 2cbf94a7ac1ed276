SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Nothing = "0"
  MaxOps = 3
  Tags = {{"t"}, {"!x"}}
  Scores = {0}
  Sym = TRUE
  Escaped = FALSE
  Late = FALSE
  Emit = TRUE

INVARIANTS Printed
CHECK_DEADLOCK FALSE
