SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"}
          MaxOps = 4
          Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Order Closure Dual
