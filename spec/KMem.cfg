SPECIFICATION Spec
CONSTRAINT Shows
CHECK_DEADLOCK FALSE
