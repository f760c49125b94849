SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2}
 Dim = 2
 MaxOps = 5
INVARIANT IndexInRange
PROPERTY Refines
CHECK_DEADLOCK FALSE
