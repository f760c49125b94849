SPECIFICATION Spec
INVARIANTS WithinVolt OthersFree Idempotent
PROPERTIES ShortSteps NearTaken Towards
CHECK_DEADLOCK FALSE
