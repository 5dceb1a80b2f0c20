SPECIFICATION Spec
CONSTANTS
  Len0 = 24
  Focus = "end"
CHECK_DEADLOCK FALSE
