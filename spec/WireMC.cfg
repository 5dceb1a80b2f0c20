SPECIFICATION Spec
CONSTANTS
 Variant = "ok"
 MaxBytes = 4
 MaxNodes = 3
INVARIANTS RoundTrip PrefixFree Total Records
CHECK_DEADLOCK FALSE
