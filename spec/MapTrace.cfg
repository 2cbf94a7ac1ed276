SPECIFICATION MSpec
CONSTANT PlaneTags = {"!x", "!y", "!translation"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
