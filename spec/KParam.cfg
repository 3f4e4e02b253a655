SPECIFICATION Spec
CONSTRAINT Check
CHECK_DEADLOCK FALSE
