SPECIFICATION Spec
CONSTANTS
  Len0 = 40
  Keys = {"a", "b", "c", "d", "e", "f"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
