SPECIFICATION Spec
CONSTANT PlaneTags = {"!x", "!y"}
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
