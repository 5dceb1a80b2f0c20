SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
CONSTANTS B = 5 Threads = {"p", "q"} MaxT = 14 MaxAdds = 5 Gaps = {1, 2, 4, 5, 6, 11} Locked = TRUE ClearAll = TRUE
