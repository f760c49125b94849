SPECIFICATION Spec
CONSTANTS MaxSolves = 4
 Gt <- IGt
INVARIANTS Consistent Settled NoControlNoChange Bounded
PROPERTIES FusesStay Terminates
