SPECIFICATION Spec
CONSTANTS
  BinSize = 32
  CapInit = 4
  MaxLen = 300
  Vals = {1}
INVARIANTS Inside Refines Bins
