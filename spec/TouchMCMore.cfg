SPECIFICATION TSpec
CONSTANTS Draws = 1 Batch = 2 Nets = 200
INVARIANT Within
