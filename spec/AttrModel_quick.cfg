SPECIFICATION Spec
CONSTANTS
  Names = {"A", "B", "C"}
  Values <- ModelValues
  MaxItems = 3
  MaxOps = 3
  Emit = FALSE
VIEW View
INVARIANTS ReadsBack Listing EqualityIsMeaning HashFollows
PROPERTY Independent
CHECK_DEADLOCK FALSE
