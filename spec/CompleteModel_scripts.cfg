SPECIFICATION Spec
CONSTANTS Names = {"A", "B", "C"}
          Tags = {"x", "y"}
          Handlings = {"indep"}
          Langs <- L0
          Requests <- R1
          Circles = FALSE
          Emit = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Printed
