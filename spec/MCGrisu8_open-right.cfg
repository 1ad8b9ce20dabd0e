INIT Init
NEXT Next
CONSTANTS
  P = 4
  EB = 8
  Wide = FALSE
  Extra = 0
  IK = 2
  LeastK = 0
  Variant = "open-right"
  ExpStep = 40
INVARIANTS Ends Steps Answer Integers_
CHECK_DEADLOCK FALSE
