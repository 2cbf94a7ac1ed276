SPECIFICATION Spec
CONSTANTS
  Kind = "tok"
  Alphabet = {"a", "b", " ", "ł"}
  MaxText = 4
  MaxRules = 2
  Limits = {0, 1, 2, 3}
  Rounds = 1
  Emit = FALSE
INVARIANTS Follows Covers FailsOnlyWhenNeeded
CHECK_DEADLOCK FALSE
