SPECIFICATION Spec
CONSTANTS
  Report = TRUE
  MaxHist = 12
VIEW View
INVARIANT Refines
