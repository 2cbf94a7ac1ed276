SPECIFICATION Spec
CONSTANTS Names = {"A", "B", "C"}
          Tags = {"x", "y"}
          Handlings = {"indep"}
          Langs <- L0
          Requests <- R1
          Circles = TRUE
          Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Bounded
