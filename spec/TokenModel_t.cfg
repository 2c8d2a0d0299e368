SPECIFICATION Spec
CONSTANT NSlots = 3
INVARIANTS OnlyOwners Owners Shown
CHECK_DEADLOCK FALSE
