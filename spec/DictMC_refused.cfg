SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  Words = {"a", "b"}
  Bound = 1
  QCap = 1
  MaxUse = 3
  MaxReset = 1
  Locked = TRUE
  OnlyAccepted = FALSE
INVARIANTS Resolvable Bounded
CHECK_DEADLOCK FALSE
