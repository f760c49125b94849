CONSTANTS
  N = 4
  MaxW = 2
SPECIFICATION Spec
INVARIANTS Partition AsNew
CHECK_DEADLOCK FALSE
