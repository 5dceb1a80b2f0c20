SPECIFICATION Spec
CONSTANTS
  Len0 = 24
  Focus = "prof"
CHECK_DEADLOCK FALSE
