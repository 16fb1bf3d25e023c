SPECIFICATION Spec
CONSTANTS S = 60 MaxK = 30
INVARIANTS Exact Progress
PROPERTY Terminates
CHECK_DEADLOCK FALSE
