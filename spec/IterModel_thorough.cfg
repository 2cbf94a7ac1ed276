SPECIFICATION Spec
CONSTANTS
  MaxEdges = 3
  Emit = FALSE
  Rich = TRUE
VIEW View
INVARIANTS Nested OnceEach OnlyWanted InOrder Complete Grouping TextHolds JsonHolds
CHECK_DEADLOCK FALSE
