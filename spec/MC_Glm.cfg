SPECIFICATION Spec
INVARIANTS Units NamedByChild Reciprocal Passive ChargingLossless Twice Kron XfPassive ZeroSequence DeltaCurrents Order Shares CtPassive Regulators Loads
CHECK_DEADLOCK FALSE
