SPECIFICATION Spec
CONSTANTS Cap = 2 N = 3 Buckets = 2
INVARIANT Explained
