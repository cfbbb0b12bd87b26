SPECIFICATION Spec
CONSTANT Profile = "mixed"
CONSTANT Sample <- RandomSample
INVARIANT Sane
PROPERTY WidthStays StemsGrow Ended
CHECK_DEADLOCK FALSE
