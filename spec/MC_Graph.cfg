SPECIFICATION Spec
INVARIANTS Partition NoneCross Connected Refine
CHECK_DEADLOCK FALSE
