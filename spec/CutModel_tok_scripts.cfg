SPECIFICATION Spec
CONSTANTS
  Kind = "tok"
  Alphabet = {"a", "b", " ", "ł"}
  MaxText = 3
  MaxRules = 2
  Limits = {0, 2, 3}
  Rounds = 1
  Emit = TRUE
INVARIANTS Printed
CONSTRAINT EmitOnly
CHECK_DEADLOCK FALSE
