SPECIFICATION Spec
CONSTANTS B = 4 MaxPos = 22 Eager = TRUE
INVARIANTS LargeAscends NothingLost
PROPERTIES AtMostOnce InOrder
