SPECIFICATION Spec
CONSTANTS Batches = {0, 1, 3} Emitting = FALSE
INVARIANTS Honest Able Harmless NoData OnlyAsked Order
PROPERTY Ends
CHECK_DEADLOCK FALSE
