SPECIFICATION Spec
CONSTANTS Max = 5 Blks = 8
INVARIANTS NothingInFree NothingInClosed NothingShown OwnOnly Apart
