SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxLines = 1
  Limit = 1
  Wrap = TRUE
  Lines <- AllLines
  Emit = FALSE
VIEW View
INVARIANTS Answers
CHECK_DEADLOCK FALSE
