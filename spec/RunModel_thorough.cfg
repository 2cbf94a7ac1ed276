SPECIFICATION Spec
CONSTANTS
  Alphabet <- Alpha
  MaxInput = 5
  Kinds = {"tok", "frag"}
  Readers = {"lines", "whole"}
  Limits = {0, 1, 2}
  Leak = ""
  Emit = FALSE
  Again = 2
INVARIANTS Right SoFar Independent Rejoined
CHECK_DEADLOCK FALSE
