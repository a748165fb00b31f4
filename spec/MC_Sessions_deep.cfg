SPECIFICATION Spec
CONSTANTS Slots = 16
 Report = FALSE
INVARIANTS AsAlone
