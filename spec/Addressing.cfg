SPECIFICATION Spec
CONSTANTS Base = 2
CONSTRAINT Depth
INVARIANTS NeverStuck InjectivePerTable SpreadToo
