SPECIFICATION Spec
CONSTANTS B = 5 MaxPos = 33 Eager = TRUE
INVARIANTS LargeAscends NothingLost
PROPERTIES AtMostOnce InOrder
