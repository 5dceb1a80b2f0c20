SPECIFICATION Spec
CONSTANTS
  N = 5
  Sizes = {1, 2, 3, 4, 7}
  Q = 4
  LS = 4
  LC = 4
  FlushFirst = TRUE
INVARIANTS InOrder Bounded DroppedOnlyWhenFull Complete
CHECK_DEADLOCK FALSE
