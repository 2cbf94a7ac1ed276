SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxReq = 5
  OneAtATime = TRUE
  Emit = FALSE
VIEW View
INVARIANTS OwnPage OwnData CookieKept
CHECK_DEADLOCK FALSE
