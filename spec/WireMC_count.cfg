SPECIFICATION Spec
CONSTANTS
 Variant = "count"
 MaxBytes = 1
 MaxNodes = 2
INVARIANTS RoundTrip PrefixFree Total Records
CHECK_DEADLOCK FALSE
