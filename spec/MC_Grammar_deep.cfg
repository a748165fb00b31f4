SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Small = FALSE
INVARIANTS Accepts Open Structure
VIEW View
CHECK_DEADLOCK FALSE
