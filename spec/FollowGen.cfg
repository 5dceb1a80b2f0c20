SPECIFICATION GSpec
CONSTANTS
  Cols = {"A", "B", "C"}
  Names = {"m", "n", "o"}
  MaxChanges = 5
  MaxCuts = 3
  MaxBeats = 0
  Fair = FALSE
  Variant = "ok"
  Len0 = 9
CHECK_DEADLOCK FALSE
