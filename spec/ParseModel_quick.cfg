SPECIFICATION Spec
CONSTANTS
  Cats = {"a", "b"}
  MaxRules = 2
  MaxLeaves = 3
  Layouts = {"two", "three", "gap", "wide", "mixed"}
  SkipOnce = FALSE
  Emit = FALSE
INVARIANTS Sound Complete Apart
CHECK_DEADLOCK FALSE
