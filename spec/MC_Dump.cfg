INIT Init
NEXT Next
INVARIANTS Faithful Told
PROPERTY Untouched
CHECK_DEADLOCK FALSE
