SPECIFICATION Spec
CONSTANTS
  Universe <- Lines
  MaxLines = 3
  Foreign = {"q", ""}
  Group = "keys"
  Prints = FALSE
  Emit = FALSE
INVARIANTS Answers
CHECK_DEADLOCK FALSE
