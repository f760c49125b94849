SPECIFICATION Spec
INVARIANTS LastWins OnlyWritten
CHECK_DEADLOCK FALSE
