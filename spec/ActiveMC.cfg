SPECIFICATION Spec
CONSTANTS
  Tx = {"x", "y"}
  MaxT = 5
  Y = 1
  R = 2
  S = 3
  Limit = 3
  Removes = TRUE
  Variant = "ok"
  MaxScans = 2
  MaxLists = 2
INVARIANTS Counted Listed OnlyOld Alerted
CHECK_DEADLOCK FALSE
