SPECIFICATION GSpec
CONSTANTS
  Tx = {"1", "2", "3", "4", "5", "6"}
  MaxT = 9
  Y = 1
  R = 2
  S = 3
  Limit = 9
  Removes = TRUE
  Variant = "ok"
  MaxScans = 5
  MaxLists = 5
  Len0 = 16
CHECK_DEADLOCK FALSE
