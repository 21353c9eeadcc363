SPECIFICATION Spec
CONSTANTS Owners = {1, 2} Cells = {1, 2} Work = 3
INVARIANTS AtRest AsAlone Private Tagged
CHECK_DEADLOCK FALSE
