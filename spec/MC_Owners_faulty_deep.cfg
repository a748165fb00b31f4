SPECIFICATION Spec
CONSTANTS Faulty = TRUE
          Steps = 9
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
VIEW NoHist
