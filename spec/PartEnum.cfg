SPECIFICATION Spec
CONSTANT Family = "index"
CONSTANT Deep = FALSE
INVARIANT Written
CHECK_DEADLOCK FALSE
