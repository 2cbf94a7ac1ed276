SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Nothing = "0"
  MaxOps = 3
  Tags = {{"t"}, {"u"}}
  Scores = {0, 2000}
  Sym = TRUE
  Escaped = FALSE
  Late = FALSE
  Emit = FALSE
VIEW View
INVARIANTS Sense Faithful Renamed
CHECK_DEADLOCK FALSE
