SPECIFICATION Spec
INVARIANTS EveryHour SolvesAscend PowerFactor Untouched
PROPERTIES KeptSettled AdjustOnlyNegative FailedIsFinal
CHECK_DEADLOCK FALSE
