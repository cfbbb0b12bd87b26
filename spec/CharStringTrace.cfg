SPECIFICATION Spec
CONSTANT Projection = "ops"
INVARIANT LeapIsSteps
CHECK_DEADLOCK TRUE
