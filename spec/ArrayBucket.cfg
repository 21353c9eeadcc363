SPECIFICATION Spec
CONSTANTS Size = 3  Ids = {1, 2}  HistMax = 10
CONSTRAINT Bound
INVARIANTS IsWindow MarkOK ListingOK
CHECK_DEADLOCK FALSE
