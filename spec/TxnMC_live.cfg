SPECIFICATION Spec
CONSTANTS
  Tx = {x}
  Threads = {t1, t2}
  Claims = TRUE
  Removes = TRUE
  Drops = {}
INVARIANT Inv
PROPERTY Finishes
CHECK_DEADLOCK FALSE
