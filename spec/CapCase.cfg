INIT Init
NEXT Next
CONSTANT Gt <- NGreater
CHECK_DEADLOCK FALSE
