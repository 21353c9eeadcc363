SPECIFICATION Spec
CONSTANTS N = 4  R = 2
INVARIANTS Recovered Explains
