SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  MaxLines = 2
  Limit = 1
  Wrap = FALSE
  Lines <- AllLines
  Emit = FALSE
VIEW View
INVARIANTS Answers KeepsAll Every Only Levels Again
CHECK_DEADLOCK FALSE
