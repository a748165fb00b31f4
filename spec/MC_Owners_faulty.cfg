SPECIFICATION Spec
CONSTANTS Faulty = TRUE
          Steps = 7
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
VIEW NoHist
