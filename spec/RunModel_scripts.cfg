SPECIFICATION Spec
CONSTANTS
  Alphabet <- Alpha
  MaxInput = 4
  Kinds = {"tok", "frag"}
  Readers = {"lines", "whole"}
  Limits = {0, 1}
  Leak = ""
  Emit = TRUE
  Again = 1
INVARIANTS Printed
CONSTRAINT EmitOnly
CHECK_DEADLOCK FALSE
