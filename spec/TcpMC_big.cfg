SPECIFICATION Spec
CONSTANTS
 Variant = "ok"
 MaxReq = 5
 MaxCut = 2
 MaxStall = 1
 MaxMove = 2
INVARIANTS InOrder Asked Answerable
PROPERTIES Returns Answered
CHECK_DEADLOCK FALSE
