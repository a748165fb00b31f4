SPECIFICATION Spec
CONSTANTS Slots = 16
 Report = TRUE
INVARIANTS AsAlone Growing InLanguage Deterministic Told
