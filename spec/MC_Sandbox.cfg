SPECIFICATION Spec
CONSTANT Filtered = TRUE
INVARIANT Safe
