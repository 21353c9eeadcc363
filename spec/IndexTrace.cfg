SPECIFICATION TSpec
CONSTANT Cap = 128
