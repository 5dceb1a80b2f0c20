SPECIFICATION Spec
CONSTANTS
 Variant = "notifyfirst"
 MaxEdit = 2
 MaxSave = 2
INVARIANTS Informed Once Listed Confirmed
PROPERTIES Follows
CHECK_DEADLOCK FALSE
