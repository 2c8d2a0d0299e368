SPECIFICATION Spec
CONSTANTS
  Part = "fails"
  AllCaps = TRUE
  Pairs = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Reported Alike Shown
