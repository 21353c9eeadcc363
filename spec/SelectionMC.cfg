SPECIFICATION Spec
CONSTANTS Threshold = 1  Floor = 3  N = 4  Tables = 3  Sparse = 2
INVARIANTS Explained LabelsIn
