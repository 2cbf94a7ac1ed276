SPECIFICATION Spec
CONSTANTS
  Paths = {"/x", "/y"}
  MaxOps = 8
  Emit = FALSE
INVARIANTS OncePerGeneration NeverShared
CHECK_DEADLOCK FALSE
