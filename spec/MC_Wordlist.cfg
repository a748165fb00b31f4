SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 10, 97, 195}
  MaxLen = 7
INVARIANTS Same Clean Final Cut Blank Again
