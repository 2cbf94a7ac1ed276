SPECIFICATION Spec
CONSTANTS
  Kind = "srx"
  Alphabet = {"a", ".", " "}
  MaxText = 4
  MaxRules = 2
  Limits = {0}
  Rounds = 1
  Emit = TRUE
INVARIANTS Printed
CONSTRAINT EmitOnly
CHECK_DEADLOCK FALSE
