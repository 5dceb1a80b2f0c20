SPECIFICATION GSpec
CONSTANTS
  Comps = {"", ".", "..", "a", "a..b", "dump", "dump2", "home"}
  MaxComps = 2
  MaxIno = 12
  MaxSize = 2
  MaxEnv = 6
  MaxOps = 14
  Variant = "ok"
  Len0 = 16
CHECK_DEADLOCK FALSE
