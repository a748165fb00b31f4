SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Tiled Pending
PROPERTIES Persist
CHECK_DEADLOCK FALSE
