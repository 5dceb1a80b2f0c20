SPECIFICATION Spec
CONSTANTS
  Comps = {"", ".", "..", "a", "a..b", "dump", "dump2", "home"}
  MaxComps = 3
  MaxIno = 4
  MaxSize = 2
  MaxEnv = 0
  MaxOps = 1
  Variant = "prefix"
INVARIANTS Confined Exact ListedOk Faithful Complete
PROPERTY Answers
CHECK_DEADLOCK FALSE
