SPECIFICATION Spec
CONSTANTS Sig = {97, 98}
          MaxLen = 3
          MaxArcs1 = 3
          MaxArcs2 = 1
CHECK_DEADLOCK FALSE
INVARIANTS Unary Binary Same Differ Finite
