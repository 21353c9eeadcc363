SPECIFICATION Spec
CONSTANTS Owners = {1, 2, 3} Cells = {1, 2} Work = 1
INVARIANTS AtRest AsAlone Private Tagged
CHECK_DEADLOCK FALSE
