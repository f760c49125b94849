SPECIFICATION Spec
CONSTANT Gt <- IGt
INVARIANTS TapInRange Idempotent
PROPERTIES FuseLatches FuseExact Supports ManualStays DeadBand
CHECK_DEADLOCK FALSE
