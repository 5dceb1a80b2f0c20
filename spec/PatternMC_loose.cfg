SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS PL = 4 NL = 4 Careful = FALSE Letters = {"a", "b"}
