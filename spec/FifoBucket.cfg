SPECIFICATION Spec
CONSTANTS Size = 3  Ids = {1, 2}  HistMax = 10
CONSTRAINT Bound
INVARIANTS TypeOK IsWindow ReadsAgree
PROPERTY OneSlot
CHECK_DEADLOCK FALSE
