SPECIFICATION Spec
CONSTANT Together = 2
CONSTANT Requests = 4
CONSTANT Chosen = 1
INVARIANT Independent
INVARIANT Published
PROPERTY Undisturbed
CHECK_DEADLOCK TRUE
