SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  MaxCalls = 2
  QCap = 1
  Early = TRUE
  Guarded = FALSE
  Frees = TRUE
  Offers = TRUE
  Lets = TRUE
INVARIANTS TypeOK Usable Once Through
PROPERTIES Returns RunsIt
CHECK_DEADLOCK FALSE
