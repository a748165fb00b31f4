SPECIFICATION Spec
CONSTANTS Max = 3 Blks = 6
INVARIANTS NothingInFree NothingInClosed NothingShown OwnOnly Apart
