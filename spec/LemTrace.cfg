SPECIFICATION LSpec
CONSTANT PlaneTags = {"!x", "!y"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
