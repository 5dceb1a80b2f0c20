SPECIFICATION Spec
CONSTANTS
  Tx = {x, y, z}
  Threads = {}
  Claims = TRUE
  Removes = TRUE
  Drops = {y}
INVARIANT Inv
PROPERTY Finishes
CHECK_DEADLOCK FALSE
