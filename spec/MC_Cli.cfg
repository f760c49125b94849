SPECIFICATION Spec
INVARIANTS EveryHour SolvesAscend PlainSolvesOnce RefusedDoesNothing WritesWhatItShows NamesDiffer FactorHolds
CHECK_DEADLOCK FALSE
