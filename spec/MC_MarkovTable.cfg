SPECIFICATION Spec
CONSTANTS
  Cps = {0, 1, 3, 10, 21, 97, 118}
  Weights0 = {0, 1, 3}
  MaxOps = 5
INVARIANTS Counts Size Nothing
