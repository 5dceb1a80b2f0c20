SPECIFICATION Spec
CONSTANTS
  K = 2
  M = 2
  MaxSteps = 5
  Nested = TRUE
  RestoreParent = FALSE
INVARIANTS ExactlyOnce Numbered Unique Parents Bounded Counted
CHECK_DEADLOCK FALSE
