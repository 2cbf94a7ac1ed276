SPECIFICATION Spec
CONSTANTS
  MaxEdges = 3
  Emit = FALSE
  Rich = FALSE
VIEW View
INVARIANTS Nested OnceEach OnlyWanted InOrder Complete Grouping TextHolds JsonHolds
CHECK_DEADLOCK FALSE
