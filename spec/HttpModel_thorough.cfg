SPECIFICATION Spec
CONSTANTS
  Rounds = 2
  MaxPiece = 8
  Emit = FALSE
VIEW View
INVARIANTS AcceptedAtLastByte DamageFound NotEarly
CHECK_DEADLOCK FALSE
