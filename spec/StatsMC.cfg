SPECIFICATION MSpec
CONSTANTS
  Threshold = 1
  N = 2
  Tables = 3
  Examples = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
