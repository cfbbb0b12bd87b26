SPECIFICATION Spec
CONSTANT Length = 6
CONSTANT Publishing = TRUE
INVARIANTS Delivery Surfacing Scheduled Published
PROPERTY Ends
