SPECIFICATION Spec
CONSTANTS
  Lays = {"user", "info", "file", "board", "formosa"}
  Back = {"00", "41"}
INVARIANTS RoundTrip Stable Alone Shown
CHECK_DEADLOCK FALSE
