SPECIFICATION Spec
CONSTANTS N = 4  K = 2
INVARIANTS KeepsTop SameTop PlainIsAll Sound ProbesOK
