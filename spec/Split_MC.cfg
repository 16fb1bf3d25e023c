INIT Init
NEXT Next
CONSTANTS NMAX = 24
          TMAX = 12
INVARIANTS Prefix Done
CHECK_DEADLOCK FALSE
