SPECIFICATION CSpec
CONSTANTS
  Procs = {1, 2}
  Segs = {"a", "b"}
  Pieces = 2
  KeyOf <- MCKey
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
