SPECIFICATION Spec
CONSTANTS
  Comps = {"..", ".", "a", "dump", "dump2", "home"}
  MaxComps = 4
  MaxIno = 5
  MaxSize = 2
  MaxEnv = 1
  MaxOps = 1
  Variant = "ok"
INVARIANTS Confined Exact ListedOk Faithful Complete
PROPERTY Answers
CHECK_DEADLOCK FALSE
