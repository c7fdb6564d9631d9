SPECIFICATION Spec
CONSTRAINT Check
POSTCONDITION Report
CHECK_DEADLOCK FALSE
