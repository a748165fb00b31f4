SPECIFICATION Spec
CONSTANTS B = 4 MaxPos = 22 Eager = FALSE
INVARIANTS LargeAscends NothingLost
PROPERTIES AtMostOnce InOrder
