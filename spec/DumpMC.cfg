SPECIFICATION Spec
CONSTANTS
  Comps = {"..", "a", "a..b"}
  MaxComps = 1
  MaxIno = 5
  MaxSize = 2
  MaxEnv = 3
  MaxOps = 2
  Variant = "ok"
INVARIANTS Confined Exact ListedOk Faithful Complete
PROPERTY Answers
CHECK_DEADLOCK FALSE
