INIT Init
NEXT Next
CONSTRAINT Track
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
