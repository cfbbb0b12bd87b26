SPECIFICATION Spec
CONSTANT Profile = "mixed"
CONSTANT Sample <- RandomSample
INVARIANT RoundTrip Refused CountRight
CHECK_DEADLOCK FALSE
