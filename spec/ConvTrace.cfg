SPECIFICATION CSpec
CONSTANT PlaneTags = {"!x", "!y"}
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
