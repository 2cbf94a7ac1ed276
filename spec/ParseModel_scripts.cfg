SPECIFICATION Spec
CONSTANTS
  Cats = {"a", "b"}
  MaxRules = 2
  MaxLeaves = 3
  Layouts = {"two", "three", "gap", "wide", "mixed"}
  SkipOnce = FALSE
  Emit = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
