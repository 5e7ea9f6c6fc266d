SPECIFICATION Spec
CONSTANTS C = 3 Alpha = 1 Tau = 1 MaxSteps = 4
INVARIANTS ClosedMoves ClosedSojourns Normalised
CHECK_DEADLOCK FALSE
