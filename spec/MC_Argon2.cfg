SPECIFICATION Spec
INVARIANT Injective
