SPECIFICATION Spec
CONSTANTS
  Tx = {x, y}
  Threads = {t1, t2}
  Claims = TRUE
  Removes = TRUE
  Drops = {y}
INVARIANT Inv
CHECK_DEADLOCK FALSE
