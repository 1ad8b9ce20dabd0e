CONSTANTS
  P = 23
  EB = 8
  QC = 64
  Wide = FALSE
INIT Init
NEXT Next
INVARIANTS Products Lengths IntegerRules
POSTCONDITION Count
CHECK_DEADLOCK FALSE
