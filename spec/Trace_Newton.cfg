INIT Init
NEXT Next
CONSTANTS Window = 50
 Lt <- NLess
 Le <- NLeq
 Rising <- NRising
CONSTRAINT Track
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
