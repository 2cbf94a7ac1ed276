SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"}
          MaxOps = 4
          Emit = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Printed
