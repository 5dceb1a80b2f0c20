SPECIFICATION Spec
CONSTANTS
  N = 4
  Sizes = {1, 2, 4}
  Q = 4
  LS = 2
  LC = 5
  FlushFirst = TRUE
INVARIANTS InOrder Bounded DroppedOnlyWhenFull Complete
CHECK_DEADLOCK FALSE
