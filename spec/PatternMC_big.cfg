SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS PL = 6 NL = 6 Careful = TRUE Letters = {"a", "b"}
