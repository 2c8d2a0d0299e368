SPECIFICATION Spec
INVARIANTS Agree Held2
CONSTANTS Deep = TRUE
CHECK_DEADLOCK FALSE
