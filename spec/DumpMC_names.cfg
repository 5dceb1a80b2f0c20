SPECIFICATION Spec
CONSTANTS
  Comps = {"", ".", "..", "a", "a..b", "dump", "dump2"}
  MaxComps = 3
  MaxIno = 5
  MaxSize = 2
  MaxEnv = 1
  MaxOps = 1
  Variant = "ok"
INVARIANTS Confined Exact ListedOk Faithful Complete
PROPERTY Answers
CHECK_DEADLOCK FALSE
