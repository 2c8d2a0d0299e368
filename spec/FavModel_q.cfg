SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
  MaxDepth = 2
  Deep = FALSE
INVARIANTS RoundTrip RightSize CutIsBad TailIgnored Shown
CHECK_DEADLOCK FALSE
