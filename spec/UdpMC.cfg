SPECIFICATION Spec
CONSTANTS
  N = 4
  Sizes = {1, 2, 3, 5}
  Q = 3
  LS = 3
  LC = 3
  FlushFirst = TRUE
INVARIANTS InOrder Bounded DroppedOnlyWhenFull Complete
CHECK_DEADLOCK FALSE
