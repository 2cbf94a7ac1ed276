SPECIFICATION Spec
CONSTANTS
  Kind = "srx"
  Alphabet = {"a", ".", " "}
  MaxText = 5
  MaxRules = 3
  Limits = {0, 2}
  Rounds = 1
  Emit = FALSE
INVARIANTS Follows Covers FailsOnlyWhenNeeded BreaksRight
CHECK_DEADLOCK FALSE
