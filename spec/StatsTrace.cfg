SPECIFICATION TSpec
CONSTANT Threshold = 2
