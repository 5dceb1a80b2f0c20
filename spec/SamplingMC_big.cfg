SPECIFICATION Spec
INVARIANTS Exact ErrorsFull
CHECK_DEADLOCK FALSE
CONSTANTS D = 3 Strict = TRUE Els = {0, 1, 2, 3, 4} Pcts = {-1, 0, 1, 2, 3, 4}
