SPECIFICATION Spec
CONSTANTS
  K = 2
  M = 3
  MaxSteps = 7
  Nested = TRUE
  RestoreParent = TRUE
INVARIANTS ExactlyOnce Numbered Unique Parents Bounded Counted
CHECK_DEADLOCK FALSE
