CONSTANTS
  P = 52
  EB = 11
  QC = 118
  Wide = TRUE
INIT Init
NEXT Next
INVARIANTS Products Lengths IntegerRules
POSTCONDITION Count
CHECK_DEADLOCK FALSE
