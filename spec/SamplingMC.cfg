SPECIFICATION Spec
CONSTANTS N = 2 MaxT = 4 MaxTr = 3 TEnd = 4
INVARIANTS CurrentLaws TimesGrow OneChange Bounded ClosedOnce
CHECK_DEADLOCK FALSE
