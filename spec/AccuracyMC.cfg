SPECIFICATION Spec
CONSTANT MaxBatches = 3
INVARIANTS Kept Right
CHECK_DEADLOCK FALSE
