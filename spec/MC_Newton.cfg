SPECIFICATION Spec
CONSTANTS Window = 2
 Lt <- ILt
 Le <- ILe
 Rising <- IRising
INVARIANTS SoundOutcome EarnedFailure NothingMissed WorkBounded TrueResidual
PROPERTY Terminates
