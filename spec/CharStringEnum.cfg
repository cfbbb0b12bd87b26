SPECIFICATION Spec
CONSTANT Family = "calc"
CONSTANT Deep = FALSE
INVARIANT Sane
PROPERTY WidthStays StemsGrow Ended
CHECK_DEADLOCK FALSE
