SPECIFICATION Spec
CONSTANT MaxOn = 3
INVARIANTS Own Nobody OneEach
CHECK_DEADLOCK FALSE
