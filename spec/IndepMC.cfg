SPECIFICATION Spec
CONSTANTS MaxRecs = 5 CardX = 2 Durations = {1, 9}
VIEW MCView
INVARIANTS Decided Constant Renamed NoDataNoIndependence
CHECK_DEADLOCK FALSE
