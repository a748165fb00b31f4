SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Viable Early Congruent
VIEW View
CHECK_DEADLOCK FALSE
