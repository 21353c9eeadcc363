SPECIFICATION TSpec
CONSTANTS Threshold = 2  Floor = 1000
