INIT Init
NEXT Next
CONSTANTS NMAX = 60
          TMAX = 40
INVARIANTS Prefix Done
CHECK_DEADLOCK FALSE
