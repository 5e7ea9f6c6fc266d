SPECIFICATION Spec
CONSTANTS N = 3 MaxT = 3 MaxTr = 3 TEnd = 3
INVARIANTS CurrentLaws TimesGrow OneChange Bounded ClosedOnce
CHECK_DEADLOCK FALSE
