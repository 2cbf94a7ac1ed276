SPECIFICATION Spec
CONSTANTS
  Paths = {"/x", "/y"}
  MaxOps = 6
  Emit = FALSE
INVARIANTS OncePerGeneration NeverShared
CHECK_DEADLOCK FALSE
