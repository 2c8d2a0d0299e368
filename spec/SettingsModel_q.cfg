SPECIFICATION Spec
CONSTANT MaxOn = 2
INVARIANTS Own Nobody OneEach
CHECK_DEADLOCK FALSE
