SPECIFICATION Spec
CONSTANTS Draws = 150 Batch = 2
INVARIANTS Derivative Balanced
