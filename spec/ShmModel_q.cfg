SPECIFICATION Spec
INVARIANTS Agree Held2
CONSTANTS Deep = FALSE
CHECK_DEADLOCK FALSE
