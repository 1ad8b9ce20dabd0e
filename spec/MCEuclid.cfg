CONSTANTS MaxA = 40 MaxB = 36 MaxN = 40
SPECIFICATION Spec
INVARIANTS Kept Answer
PROPERTY Stops
CHECK_DEADLOCK FALSE
