SPECIFICATION Spec
CONSTANTS Names = {"A", "B", "C"}
          Tags = {"x", "y"}
          Handlings = {"indep"}
          Langs <- L0
          Requests <- R3
          Circles = FALSE
          Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Bounded Sound Complete OneOf
