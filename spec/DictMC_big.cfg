SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  Words = {"a", "b", "c"}
  Bound = 1
  QCap = 1
  MaxUse = 6
  MaxReset = 2
  Locked = TRUE
  OnlyAccepted = TRUE
INVARIANTS Resolvable Bounded
CHECK_DEADLOCK FALSE
