SPECIFICATION Spec
CONSTANTS
  MaxArgs = 4
  Words = {"Test", "alice", "M.1400000000.A.000", "x", "", "--"}
INVARIANTS ArgsOK Lead Shown
CHECK_DEADLOCK FALSE
