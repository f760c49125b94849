SPECIFICATION Spec
INVARIANTS UnitsOfTurns UnitsOfImpedance PowerPasses OpenWinding Windings
CHECK_DEADLOCK FALSE
