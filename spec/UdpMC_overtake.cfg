SPECIFICATION Spec
CONSTANTS
  N = 3
  Sizes = {1, 3}
  Q = 3
  LS = 9
  LC = 2
  FlushFirst = FALSE
INVARIANTS InOrder Bounded DroppedOnlyWhenFull Complete
CHECK_DEADLOCK FALSE
