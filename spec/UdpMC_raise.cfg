SPECIFICATION Spec
CONSTANTS
  N = 4
  Sizes = {1, 2, 3, 4}
  Q = 4
  LS = 9
  LC = 2
  FlushFirst = TRUE
INVARIANTS InOrder Bounded DroppedOnlyWhenFull Complete
CHECK_DEADLOCK FALSE
