SPECIFICATION Spec
CONSTANT Widths = {1,2,3,4,5}
INVARIANT Agree
CHECK_DEADLOCK FALSE
