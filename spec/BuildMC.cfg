SPECIFICATION MSpec
CONSTANTS
  MaxLayers = 3
  MaxSize = 3
  MaxWrites = 2
INVARIANTS UsedUp OwnRow WritesStay CellsAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
