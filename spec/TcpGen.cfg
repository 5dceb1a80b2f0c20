SPECIFICATION GSpec
CONSTANTS
 Variant = "ok"
 MaxReq = 100
 MaxCut = 2
 MaxStall = 0
 MaxMove = 0
 Len0 = 14
CHECK_DEADLOCK FALSE
