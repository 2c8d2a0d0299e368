SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 10, 27, 32, 64, 91, 109, 127, 129, 155, 164, 194, 255}
  MaxLen = 4
INVARIANTS Readable Exact Parts Filtered Shown
CHECK_DEADLOCK FALSE
