SPECIFICATION Spec
CONSTANTS Vals <- Signs Examples = 2
INVARIANT Bounds
