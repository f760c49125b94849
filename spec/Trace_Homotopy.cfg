INIT Init
NEXT Next
CONSTANT Steps = 1000000
CONSTRAINT Track
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
