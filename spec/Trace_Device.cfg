INIT Init
NEXT Next
CONSTANT Gt <- NGreater
CONSTRAINT Track
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
