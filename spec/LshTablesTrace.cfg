SPECIFICATION TSpec
CONSTANTS Size = 128  LogMax = 0
