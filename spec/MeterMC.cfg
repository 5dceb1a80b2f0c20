SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
CONSTANTS B = 4 Threads = {"p", "q"} MaxT = 9 MaxAdds = 3 Gaps = {1, 2, 3, 4, 5, 9} Locked = TRUE ClearAll = TRUE
