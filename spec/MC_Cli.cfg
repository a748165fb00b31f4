SPECIFICATION Spec
CONSTANTS
  MaxSettings = 2
INVARIANTS Same Total Dashes LastWins
