SPECIFICATION Spec
INVARIANT Enable
INVARIANT Check
CHECK_DEADLOCK FALSE
