SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS Tiled Pending
PROPERTIES Persist
CHECK_DEADLOCK FALSE
