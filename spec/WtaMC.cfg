SPECIFICATION Spec
CONSTANTS Bin = 3  N = 3  NH = 3
INVARIANTS True Explains
