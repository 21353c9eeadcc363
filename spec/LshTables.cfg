SPECIFICATION Spec
CONSTANTS Size = 2  LogMax = 4
CONSTRAINT Bound
INVARIANT EachBucketIsItsLog
PROPERTY OnItsOwn
CHECK_DEADLOCK FALSE
