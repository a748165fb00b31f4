SPECIFICATION Spec
CONSTANTS
  Cps = {0, 1, 3, 10, 21, 97, 118, 357, 1000}
  Weights0 = {0, 1, 3}
  MaxOps = 6
INVARIANTS Counts Size Nothing
