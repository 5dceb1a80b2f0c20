SPECIFICATION Spec
CONSTANTS
 Variant = "nolock"
 MaxEdit = 2
 MaxSave = 2
INVARIANTS Informed Once Listed Confirmed
PROPERTIES Follows
CHECK_DEADLOCK FALSE
