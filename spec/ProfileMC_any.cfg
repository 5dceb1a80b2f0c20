SPECIFICATION Spec
CONSTANTS
  K = 2
  M = 1
  MaxSteps = 6
  Nested = FALSE
  RestoreParent = TRUE
INVARIANTS ExactlyOnce Numbered Unique Parents Bounded Counted
CHECK_DEADLOCK FALSE
