SPECIFICATION Spec
CONSTANTS Dim = 3  Vals <- MCVals
CONSTRAINT Few
INVARIANTS SameForm Function
