SPECIFICATION GSpec
INVARIANTS Faithful Ends Names
