SPECIFICATION Spec
CONSTANT NSlots = 2
INVARIANTS OnlyOwners Owners Shown
CHECK_DEADLOCK FALSE
