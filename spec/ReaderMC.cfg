SPECIFICATION Spec
CONSTANT MaxLines = 2
INVARIANTS Faithful Ends Names
PROPERTY Stays
