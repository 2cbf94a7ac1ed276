SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  MaxReq = 5
  OneAtATime = TRUE
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
