SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
CONSTANTS B = 4 Threads = {"p", "q"} MaxT = 8 MaxAdds = 3 Gaps = {1, 4} Locked = FALSE ClearAll = TRUE
