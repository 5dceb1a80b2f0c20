SPECIFICATION Spec
CONSTANTS
  N = 3
  Sizes = {1, 2, 3, 5}
  Q = 3
  LS = 3
  LC = 3
  FlushFirst = TRUE
PROPERTY AllSent
CHECK_DEADLOCK FALSE
