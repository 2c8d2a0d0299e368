SPECIFICATION Spec
CONSTANTS
  Part = "fails"
  AllCaps = FALSE
  Pairs = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Reported Alike Shown
