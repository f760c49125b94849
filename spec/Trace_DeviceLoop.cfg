INIT Init
NEXT Next
CONSTANTS MaxSolves = 10
 Gt <- NGreater
CONSTRAINT Track
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
