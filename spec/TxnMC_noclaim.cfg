SPECIFICATION Spec
CONSTANTS
  Tx = {x}
  Threads = {t1, t2}
  Claims = FALSE
  Removes = TRUE
  Drops = {}
INVARIANT Inv
CHECK_DEADLOCK FALSE
