SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxReq = 7
  OneAtATime = TRUE
  Emit = FALSE
VIEW View
INVARIANTS OwnPage OwnData CookieKept
CHECK_DEADLOCK FALSE
