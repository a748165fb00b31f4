SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS RoundTrip Doc Clean
CHECK_DEADLOCK FALSE
