SPECIFICATION TSpec
CONSTANTS Base = 8
