SPECIFICATION Spec
CONSTANTS Report = TRUE
INVARIANTS Partition Entropy InLanguage NeverStuck Depth Receiver Printed
CHECK_DEADLOCK FALSE
