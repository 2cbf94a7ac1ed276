SPECIFICATION Spec
CONSTANTS
  Universe <- Lines
  MaxLines = 3
  Foreign = {"q", ""}
  Group = "runs"
  Prints = TRUE
  Emit = FALSE
INVARIANTS Compiles
CHECK_DEADLOCK FALSE
