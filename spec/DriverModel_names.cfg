SPECIFICATION Spec
CONSTANTS
  Part = "names"
  AllCaps = FALSE
  Pairs = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Own
PROPERTIES Apart
