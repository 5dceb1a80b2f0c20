SPECIFICATION Spec
CONSTANTS
  Comps = {"..", "a", "a..b"}
  MaxComps = 1
  MaxIno = 5
  MaxSize = 2
  MaxEnv = 2
  MaxOps = 1
  Variant = "reopen"
INVARIANTS Confined Exact ListedOk Faithful Complete
PROPERTY Answers
CHECK_DEADLOCK FALSE
