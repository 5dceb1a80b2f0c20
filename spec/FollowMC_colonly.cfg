SPECIFICATION Spec
CONSTANTS
  Cols = {"A", "B"}
  Names = {"m", "n"}
  MaxChanges = 2
  MaxCuts = 1
  MaxBeats = 2
  Fair = TRUE
  Variant = "colonly"
INVARIANTS OneConnection NothingOld Announced Honest
PROPERTIES Follows Current
CHECK_DEADLOCK FALSE
