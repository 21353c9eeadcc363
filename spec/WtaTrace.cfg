SPECIFICATION TSpec
CONSTANTS Bin = 8
