SPECIFICATION Spec
CONSTANTS
  Universe <- Lines
  MaxLines = 3
  Foreign = {"q", ""}
  Group = "keys"
  Prints = TRUE
  Emit = TRUE
INVARIANTS Printed
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
