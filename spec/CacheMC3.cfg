SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Keys = {"a", "b"}
  Bound = 1
  MaxOps = 2
  Variant = "lra"
  Broken = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE
