SPECIFICATION Spec
CONSTANTS
  K = 4
  M = 3
  MaxSteps = 9
  Nested = TRUE
  RestoreParent = TRUE
INVARIANTS ExactlyOnce Numbered Unique Parents Bounded Counted
CHECK_DEADLOCK FALSE
