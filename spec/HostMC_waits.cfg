SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  MaxCalls = 1
  QCap = 1
  Early = TRUE
  Guarded = TRUE
  Frees = TRUE
  Offers = FALSE
  Lets = TRUE
INVARIANTS TypeOK Usable Once Through
PROPERTIES Returns RunsIt
CHECK_DEADLOCK FALSE
