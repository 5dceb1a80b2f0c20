SPECIFICATION Spec
CONSTANTS
 Variant = "wide"
 MaxBytes = 4
 MaxNodes = 2
INVARIANTS RoundTrip PrefixFree Total Records
CHECK_DEADLOCK FALSE
