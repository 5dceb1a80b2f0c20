SPECIFICATION Spec
CONSTANTS
  Len0 = 24
  Focus = "ident"
CHECK_DEADLOCK FALSE
