SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxReq = 3
  OneAtATime = FALSE
  Emit = FALSE
VIEW View
INVARIANTS OwnPage OwnData CookieKept
CHECK_DEADLOCK FALSE
