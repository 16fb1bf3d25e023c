CONSTANT MaxCells = 6
INIT Init
NEXT Next
INVARIANTS RoundTrip Detected
CHECK_DEADLOCK FALSE
