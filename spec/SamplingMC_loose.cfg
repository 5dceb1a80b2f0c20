SPECIFICATION Spec
INVARIANTS Exact ErrorsFull
CHECK_DEADLOCK FALSE
CONSTANTS D = 3 Strict = FALSE Els = {0, 1, 2, 3} Pcts = {2}
