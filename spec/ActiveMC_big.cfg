SPECIFICATION Spec
CONSTANTS
  Tx = {"x", "y", "z"}
  MaxT = 5
  Y = 1
  R = 2
  S = 3
  Limit = 3
  Removes = TRUE
  Variant = "ok"
  MaxScans = 2
  MaxLists = 1
INVARIANTS Counted Listed OnlyOld Alerted
CHECK_DEADLOCK FALSE
