SPECIFICATION Spec
CONSTANTS Bin = 3  N = 4  NH = 2
INVARIANTS True Explains
