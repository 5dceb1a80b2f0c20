SPECIFICATION Spec
CONSTANTS
  Len0 = 24
  Focus = "any"
CHECK_DEADLOCK FALSE
