SPECIFICATION Spec
CONSTANTS
  Cols = {"A", "B", "C"}
  Names = {"m", "n"}
  MaxChanges = 3
  MaxCuts = 2
  MaxBeats = 2
  Fair = FALSE
  Variant = "ok"
INVARIANTS OneConnection NothingOld Announced Honest
CHECK_DEADLOCK FALSE
