SPECIFICATION Spec
CONSTANTS MaxRecs = 5 CardX = 3 Durations = {1}
VIEW MCView
INVARIANTS Decided Constant Renamed NoDataNoIndependence
CHECK_DEADLOCK FALSE
