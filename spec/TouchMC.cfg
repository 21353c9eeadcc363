SPECIFICATION TSpec
CONSTANTS Draws = 1 Batch = 2 Nets = 25
INVARIANT Within
