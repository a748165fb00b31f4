SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Viable Early Congruent
VIEW View
CHECK_DEADLOCK FALSE
