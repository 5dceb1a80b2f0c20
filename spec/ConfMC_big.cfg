SPECIFICATION Spec
CONSTANTS
 Variant = "ok"
 MaxEdit = 4
 MaxSave = 3
INVARIANTS Informed Once Listed Confirmed
PROPERTIES Follows
CHECK_DEADLOCK FALSE
