SPECIFICATION Spec
CONSTANT Filtered = FALSE
INVARIANT Safe
