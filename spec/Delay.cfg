SPECIFICATION Spec
CONSTANTS S = 24 MaxK = 14
INVARIANTS Exact Progress
PROPERTY Terminates
CHECK_DEADLOCK FALSE
