SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Keys = {"a", "b", "c"}
  Bound = 2
  MaxOps = 2
  Variant = "lra"
  Broken = "stops"
INVARIANT Inv
CHECK_DEADLOCK FALSE
