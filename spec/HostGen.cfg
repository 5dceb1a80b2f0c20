SPECIFICATION Spec
CONSTANTS
  Len0 = 30
CHECK_DEADLOCK FALSE
