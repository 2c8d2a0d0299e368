SPECIFICATION Spec
CONSTANTS
  Part = "fails"
  AllCaps = FALSE
  Pairs = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Reported Alike
