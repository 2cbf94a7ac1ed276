SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxLines = 2
  Limit = 1
  Wrap = FALSE
  Lines <- FewLines
  Emit = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
