SPECIFICATION Spec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  NThreads = 3
  MaxSegments = 6
