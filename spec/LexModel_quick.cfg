SPECIFICATION Spec
CONSTANTS
  Universe <- Lines
  MaxLines = 3
  Foreign = {"q", ""}
  Group = "keys"
  Prints = TRUE
  Emit = FALSE
INVARIANTS Outcome Compiles Answers Restored
CHECK_DEADLOCK FALSE
