SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
  MaxDepth = 3
  Deep = TRUE
INVARIANTS RoundTrip RightSize CutIsBad TailIgnored Shown
CHECK_DEADLOCK FALSE
