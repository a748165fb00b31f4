SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Small = TRUE
INVARIANTS Accepts Open Structure
VIEW View
CHECK_DEADLOCK FALSE
