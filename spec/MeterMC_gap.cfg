SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
CONSTANTS B = 4 Threads = {"p", "q"} MaxT = 9 MaxAdds = 3 Gaps = {1, 3, 5} Locked = TRUE ClearAll = FALSE
