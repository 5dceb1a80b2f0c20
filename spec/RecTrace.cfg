SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Done
CHECK_DEADLOCK FALSE
