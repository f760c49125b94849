SPECIFICATION Spec
CONSTANT Steps = 6
INVARIANTS OnlyTheRealNetwork Tightens StartsRelaxed Reported
PROPERTIES Terminates LastPoint
