SPECIFICATION Spec
CONSTANTS
  PlaneTags = {"!x", "!y"}
  Nothing = "∅"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
