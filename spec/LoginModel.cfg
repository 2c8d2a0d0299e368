SPECIFICATION Spec
INVARIANTS RoundTrip Faithful Cut Shown
CHECK_DEADLOCK FALSE
