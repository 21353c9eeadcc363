SPECIFICATION Spec
CONSTANTS Batches = {0, 1, 3} Emitting = TRUE
INVARIANTS Honest Able Harmless NoData OnlyAsked Order
CHECK_DEADLOCK FALSE
