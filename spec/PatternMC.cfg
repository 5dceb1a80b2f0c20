SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS PL = 4 NL = 5 Careful = TRUE Letters = {"a", "b"}
