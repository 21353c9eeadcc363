SPECIFICATION TSpec
CONSTANTS Dim = 0  Vals = {}
