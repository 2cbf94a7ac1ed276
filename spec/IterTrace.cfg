SPECIFICATION ISpec
CONSTANT PlaneTags = {"!x", "!y"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
