SPECIFICATION Spec
CONSTANTS
  Len0 = 24
  Focus = "rec"
CHECK_DEADLOCK FALSE
