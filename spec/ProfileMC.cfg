SPECIFICATION Spec
CONSTANTS
  K = 3
  M = 2
  MaxSteps = 7
  Nested = TRUE
  RestoreParent = TRUE
INVARIANTS ExactlyOnce Numbered Unique Parents Bounded Counted
CHECK_DEADLOCK FALSE
