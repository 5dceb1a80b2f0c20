SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q"}
  MaxTx = 4
INVARIANTS Rooted Kids Headers Apart
PROPERTY NeverReused
CHECK_DEADLOCK FALSE
