SPECIFICATION Spec
CONSTANTS
  BinSize = 4
  CapInit = 4
  MaxLen = 17
  Vals = {1, 2}
INVARIANTS Inside Refines Bins
