SPECIFICATION Spec
CONSTANTS
  Kind = "srx"
  Alphabet = {"a", ".", " "}
  MaxText = 4
  MaxRules = 2
  Limits = {0}
  Rounds = 2
  Emit = FALSE
INVARIANTS Follows Covers FailsOnlyWhenNeeded BreaksRight
CHECK_DEADLOCK FALSE
