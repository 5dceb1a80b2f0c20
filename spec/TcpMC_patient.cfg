SPECIFICATION Spec
CONSTANTS
 Variant = "patient"
 MaxReq = 3
 MaxCut = 1
 MaxStall = 1
 MaxMove = 1
INVARIANTS InOrder Asked Answerable
PROPERTIES Returns Answered
CHECK_DEADLOCK FALSE
