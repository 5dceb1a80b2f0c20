SPECIFICATION Spec
CONSTANTS
  MaxGC = 3
  MaxT = 5
  MaxRecs = 3
  Period = 2
  Broken = "never"
INVARIANTS Whole Right
CHECK_DEADLOCK FALSE
