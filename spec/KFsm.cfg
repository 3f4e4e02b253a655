SPECIFICATION Spec
VIEW View
CONSTRAINT Check
CHECK_DEADLOCK FALSE
