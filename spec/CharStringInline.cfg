SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Same
CHECK_DEADLOCK FALSE
