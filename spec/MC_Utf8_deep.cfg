SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Exact Inverse Scalars Bounded
CHECK_DEADLOCK FALSE
