SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q"}
  MaxTx = 5
INVARIANTS Rooted Kids Headers Apart
PROPERTY NeverReused
CHECK_DEADLOCK FALSE
