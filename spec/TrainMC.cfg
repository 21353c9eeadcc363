SPECIFICATION Spec
CONSTANTS Draws = 15 Batch = 2
INVARIANTS Derivative Balanced
