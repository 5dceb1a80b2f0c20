SPECIFICATION Spec
CONSTANTS
  Comps = {"..", "a", "a..b"}
  MaxComps = 2
  MaxIno = 6
  MaxSize = 2
  MaxEnv = 4
  MaxOps = 3
  Variant = "ok"
INVARIANTS Confined Exact ListedOk Faithful Complete
PROPERTY Answers
CHECK_DEADLOCK FALSE
