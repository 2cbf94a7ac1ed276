SPECIFICATION Spec
CONSTANTS Names = {"A", "B"}
          Tags = {"x", "y"}
          Handlings = {"indep", "one", "dep"}
          Langs <- L2
          Requests <- R2
          Circles = FALSE
          Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Bounded Sound Complete OneOf
