SPECIFICATION Spec
CONSTANTS
  Tx = {"x", "y", "z"}
  MaxT = 4
  Y = 1
  R = 2
  S = 2
  Limit = 2
  Removes = TRUE
  Variant = "ok"
  MaxScans = 2
  MaxLists = 0
INVARIANTS Counted Listed OnlyOld Alerted
CHECK_DEADLOCK FALSE
