SPECIFICATION Spec
CONSTANTS
  MaxArgs = 3
  Words = {"Test", "alice", "M.1400000000.A.000", "--"}
INVARIANTS ArgsOK Lead Shown
CHECK_DEADLOCK FALSE
