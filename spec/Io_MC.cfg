CONSTANT MaxCells = 4
INIT Init
NEXT Next
INVARIANTS RoundTrip Detected
CHECK_DEADLOCK FALSE
