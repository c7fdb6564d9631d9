SPECIFICATION Spec
CONSTRAINT Constraint
POSTCONDITION Report
CHECK_DEADLOCK FALSE
