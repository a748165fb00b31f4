SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Exact Inverse Scalars Bounded
CHECK_DEADLOCK FALSE
