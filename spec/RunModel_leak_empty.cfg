SPECIFICATION Spec
CONSTANTS
  Alphabet <- Alpha
  MaxInput = 3
  Kinds = {"tok", "frag"}
  Readers = {"lines"}
  Limits = {0}
  Leak = "empty"
  Emit = FALSE
  Again = 1
INVARIANTS Right
CHECK_DEADLOCK FALSE
