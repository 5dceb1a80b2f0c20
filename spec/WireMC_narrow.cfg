SPECIFICATION Spec
CONSTANTS
 Variant = "narrow"
 MaxBytes = 1
 MaxNodes = 2
INVARIANTS RoundTrip PrefixFree Total Records
CHECK_DEADLOCK FALSE
