SPECIFICATION TSpec
CONSTANTS Size = 128  Ids = {}  HistMax = 0
INVARIANT TypeOK
