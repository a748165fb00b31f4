SPECIFICATION Spec
CONSTANTS
  MaxSettings = 3
INVARIANTS Same Total Dashes LastWins
