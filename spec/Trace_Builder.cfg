INIT Init
NEXT Next
CONSTANT IsZero <- NIsZero
CONSTRAINT Track
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
