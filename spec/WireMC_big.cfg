SPECIFICATION Spec
CONSTANTS
 Variant = "ok"
 MaxBytes = 5
 MaxNodes = 4
INVARIANTS RoundTrip PrefixFree Total Records
CHECK_DEADLOCK FALSE
