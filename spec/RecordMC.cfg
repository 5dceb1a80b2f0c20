SPECIFICATION Spec
CONSTANTS
  Txs = {"a", "b"}
  Texts0 = {"p", "q"}
  MaxCalls = 4
INVARIANT Faithful
PROPERTY Isolated
CHECK_DEADLOCK FALSE
